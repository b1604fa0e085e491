From 6af259baeefb4d9762dbc09915aefb6a56d451b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 01/49] fix: wrong sensitivity of the imaginary part in
 DFT_deconv

d(Re X)/d(Im H) contained iH*iH**2 where the derivative of Re(Y/H) has iY*iH**2.
---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index d19e458..477bd42 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1004,7 +1004,7 @@ def DFT_deconv(
     IY = np.r_[-iH / norm, rH / norm]
     RH = np.r_[
         (-rY * rH ** 2 + rY * iH ** 2 - 2 * iY * iH * rH) / norm ** 2,
-        (iY * rH ** 2 - iH * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
+        (iY * rH ** 2 - iY * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
     ]
     IH = np.r_[
         (-iY * rH ** 2 + iY * iH ** 2 + 2 * rY * iH * rH) / norm ** 2,
-- 
2.43.0


From db502dd6dd6e44a86e72016bb3b7e63f402daa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 02/49] fix: wrong cross block in AmpPhase2DFT for sparse
 covariances

The third term of U12 used CIA instead of CIP, unlike the dense branch.
---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 477bd42..c4eabc1 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -673,7 +673,7 @@ def AmpPhase2DFT(
             Upp = diags[0][N:]
 
             U11 = Uaa * CRA ** 2 + CRP * Uap * CRA + CRA * Uap * CRP + Upp * CRP ** 2
-            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIA + CRP * Upp * CIP
+            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIP + CRP * Upp * CIP
             U22 = Uaa * CIA ** 2 + CIP * Uap * CIA + CIA * Uap * CIP + Upp * CIP ** 2
 
             UF = sparse.diags(
-- 
2.43.0


From 06c49fa38c610c53763290d1f21d0422d0729512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 03/49] fix: asymmetric covariance in GUM_iDFT and
 AmpPhase2Time

The mixed contribution of the propagation is M + M.T; 2*M only has the same
diagonal but is not symmetric for general cross-covariances.
---
 PyDynamic/uncertainty/propagate_DFT.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index c4eabc1..ded9b2c 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -441,7 +441,8 @@ def GUM_iDFT(
         II = UF[N // 2 + 1 :, N // 2 + 1 :]
         # propagate uncertainties
         Ux = np.dot(Cc, np.dot(RR, Cc.T))
-        Ux = Ux + 2 * np.dot(Cc, np.dot(RI, Cs.T))
+        Uxcs = np.dot(Cc, np.dot(RI, Cs.T))
+        Ux = Ux + Uxcs + Uxcs.T
         Ux = Ux + np.dot(Cs, np.dot(II, Cs.T))
     else:
         RR = UF[: N // 2 + 1]
@@ -868,9 +869,11 @@ def AmpPhase2Time(
             AA = diags[0][:n]
             AP = diags[1][offset[1] : nrows + offset[1]]
             PP = diags[0][n:]
+            Uxcs = np.dot(Cc, _prod(AP, Cs.T))
             Ux = (
                 np.dot(Cc, _prod(AA, Cc.T))
-                + 2 * np.dot(Cc, _prod(AP, Cs.T))
+                + Uxcs
+                + Uxcs.T
                 + np.dot(Cs, _prod(PP, Cs.T))
             )
         else:
@@ -878,9 +881,11 @@ def AmpPhase2Time(
             AP = UAP[: N // 2 + 1, N // 2 + 1 :]
             PP = UAP[N // 2 + 1 :, N // 2 + 1 :]
             # propagate uncertainties
+            Uxcs = np.dot(Cc, np.dot(AP, Cs.T))
             Ux = (
                 np.dot(Cc, np.dot(AA, Cc.T))
-                + 2 * np.dot(Cc, np.dot(AP, Cs.T))
+                + Uxcs
+                + Uxcs.T
                 + np.dot(Cs, np.dot(PP, Cs.T))
             )
 
-- 
2.43.0


From c2f5b8887c7bf3775e64c126d41f700055b31fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 04/49] fix: DFT_multiply returns a covariance matrix for
 uncorrelated input

For a scalar or a vector of variances the blocks stayed one-dimensional, so that
a (2, 2M) array was returned, or a sum with a full block was broadcast.
---
 PyDynamic/uncertainty/propagate_DFT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index ded9b2c..101b174 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1084,12 +1084,14 @@ def DFT_multiply(
             uRR = RA * UB * RA + IA * UB * IA
             uRI = RA * UB * IA - IA * UB * RA
             uII = IA * UB * IA + RA * UB * RA
+            uRR, uRI, uII = np.diag(uRR), np.diag(uRI), np.diag(uII)
         elif len(UB.shape) == 1:  # simpler calculation if no correlation
             UBRR = UB[: n // 2]
             UBII = UB[n // 2 :]
             uRR = RA * UBRR * RA + IA * UBII * IA
             uRI = RA * UBRR * IA - IA * UBII * RA
             uII = IA * UBRR * IA + RA * UBII * RA
+            uRR, uRI, uII = np.diag(uRR), np.diag(uRI), np.diag(uII)
         else:  # full calculation because of full input covariance
             UBRR = UB[: n // 2, : n // 2]
             UBRI = UB[: n // 2, n // 2 :]
-- 
2.43.0


From f574e91fd58624047215ec3ff5adcdeb57e53d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 05/49] fix: allow a vector of variances together with a window
 in GUM_DFT

---
 PyDynamic/uncertainty/propagate_DFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 101b174..402d6e4 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -81,9 +81,9 @@ def _apply_window(
     """
     assert len(x) == len(window)
     if not isinstance(Ux, float):
-        assert Ux.shape[0] == Ux.shape[1] and Ux.shape[0] == len(x)
+        assert all(n == len(x) for n in Ux.shape)
     xw = x.copy() * window
-    if isinstance(Ux, float):
+    if isinstance(Ux, float) or len(Ux.shape) == 1:
         Uxw = Ux * window ** 2
     else:
         Uxw = _prod(window, _prod(Ux, window))
-- 
2.43.0


From 1df9d769e35af95bb667cbafbf67e9e6044d97fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 06/49] fix: do not truncate products with integer covariance
 matrices

_prod stored the product in an array of the type of the matrix operand.
---
 PyDynamic/uncertainty/propagate_DFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 402d6e4..b1662a8 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -113,12 +113,12 @@ def _prod(A: np.ndarray, B: np.ndarray) -> np.ndarray:
         If the dimensions of A and B do not match.
     """
     if len(A.shape) == 1 and len(B.shape) == 2:  # A is the vector and B the matrix
-        C = np.zeros_like(B)
+        C = np.zeros(B.shape, dtype=np.result_type(A, B))
         for k in range(C.shape[0]):
             C[k, :] = A[k] * B[k, :]
         return C
     elif len(A.shape) == 2 and len(B.shape) == 1:  # A is the matrix and B the vector
-        C = np.zeros_like(A)
+        C = np.zeros(A.shape, dtype=np.result_type(A, B))
         for k in range(C.shape[1]):
             C[:, k] = A[:, k] * B[k]
         return C
-- 
2.43.0


From c51ed2ec4c8c7eeaa0da2f0e83925be4bc133a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 07/49] fix: Time2AmpPhase_multi passed sensitivities as N and
 window

---
 PyDynamic/uncertainty/propagate_DFT.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index b1662a8..a0e52ed 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -777,7 +777,9 @@ def Time2AmpPhase_multi(x, Ux, selector=None):
     CxCos = None
     CxSin = None
     for m in range(M):
-        F, UF, CX = GUM_DFT(x[m, :], Ux[m], CxCos, CxSin, returnC=True)
+        F, UF, CX = GUM_DFT(
+            x[m, :], Ux[m], CxCos=CxCos, CxSin=CxSin, returnC=True
+        )
         CxCos = CX["CxCos"]
         CxSin = CX["CxSin"]
         A_m, P_m, UAP_m = DFT2AmpPhase(F, UF, keep_sparse=True)
-- 
2.43.0


From 2eb678fbc6094425bd5d5066bab41371a0694155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 08/49] fix: scalar uncertainties in FIRuncFilter

For integer signals or coefficients the variance was truncated to an integer, and
a scalar standard uncertainty of the coefficients was used as their variance.
---
 PyDynamic/uncertainty/propagate_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index ddaac6a..ee181be 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -338,14 +338,14 @@ def FIRuncFilter(
     ):
 
         if isinstance(sigma_noise, float):
-            Uy_diag = np.full_like(y, sigma_noise ** 2)
+            Uy_diag = np.full(len(y), sigma_noise ** 2)
         elif isinstance(sigma_noise, np.ndarray):
             Uy_diag = np.square(sigma_noise)
         else:
             Uy_diag = sigma_noise
 
         if isinstance(Utheta, float):
-            Utheta_diag = np.full_like(theta, Utheta)
+            Utheta_diag = np.full(len(theta), Utheta ** 2)
         elif isinstance(Utheta, np.ndarray):
             Utheta_diag = np.square(Utheta)
         else:
-- 
2.43.0


From af50225c3ffaea0f80eb6af892af5eb78ba41e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 09/49] fix: FIRuncFilter ignored shift for diagonal
 covariances

---
 PyDynamic/uncertainty/propagate_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index ee181be..f2aab4d 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -354,6 +354,11 @@ def FIRuncFilter(
         x, Ux_diag = _fir_filter_diag(
             y, theta, Uy_diag, Utheta_diag, initial_conditions="constant"
         )
+        # shift result
+        if shift != 0:
+            x = np.roll(x, -int(shift))
+            Ux_diag = np.roll(Ux_diag, -int(shift))
+
         return x, np.sqrt(np.abs(Ux_diag))
 
     # otherwise, the method computes full covariance information
-- 
2.43.0


From 243e4a906e293feb463e8687ad7072fd6b08f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 10/49] fix: FIRuncFilter shifts rows and columns of the
 covariance

Without axis the flattened matrix was rolled, which mixes up rows.
---
 PyDynamic/uncertainty/propagate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index f2aab4d..b404067 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -404,7 +404,7 @@ def FIRuncFilter(
         # shift result
         if shift != 0:
             x = np.roll(x, -int(shift))
-            Ux = np.roll(Ux, (-int(shift), -int(shift)))
+            Ux = np.roll(Ux, (-int(shift), -int(shift)), axis=(0, 1))
 
         if return_full_covariance:
             return x, Ux
-- 
2.43.0


From d22599340279071045c34a6b4b2b6fb6029d5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 11/49] fix: IIRuncFilter

tf2ss was not imported, so that every call failed.  Beyond that the sensitivities
with respect to the numerator were shifted by one (b_0 was never used), the state
sensitivities were aliased between time steps (dz = dz1), the noise covariance
of the state was used one step too early, shapes did not match for p > 1, and
filters with numerator and denominator of different length did not work.
---
 PyDynamic/uncertainty/propagate_filter.py | 51 ++++++++++++-----------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index b404067..4994b89 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -17,7 +17,7 @@ This modules contains the following functions:
 
 import numpy as np
 from scipy.linalg import toeplitz
-from scipy.signal import lfilter, lfilter_zi, dimpulse
+from scipy.signal import lfilter, lfilter_zi, dimpulse, tf2ss
 from scipy.signal import convolve
 from ..misc.tools import trimOrPad
 
@@ -445,44 +445,47 @@ def IIRuncFilter(x, noise, b, a, Uab):
     if not isinstance(noise, np.ndarray):
         noise = noise * np.ones_like(x)  # translate iid noise to vector
 
-    p = len(a) - 1
+    na, nb = len(a) - 1, len(b)
+    p = max(na, nb - 1, 1)
 
     # Adjust dimension for later use.
-    if not len(b) == len(a):
-        b = np.hstack((b, np.zeros((len(a) - len(b),))))
+    a = np.hstack((a, np.zeros(p - na)))
+    b = np.hstack((b, np.zeros(p + 1 - nb)))
 
     # From discrete-time transfer function to state space representation.
-    [A, bs, c, b0] = tf2ss(b, a)
+    A, bs, c, b0 = tf2ss(b, a)
+    bs, c, b0 = bs[:, 0], c[0], b0[0, 0]
 
-    A = np.matrix(A)
-    bs = np.matrix(bs)
-    c = np.matrix(c)
-
-    phi = np.zeros((2 * p + 1, 1))
+    phi = np.zeros(2 * p + 1)
     dz = np.zeros((p, p))
-    dz1 = np.zeros((p, p))
-    z = np.zeros((p, 1))
+    z = np.zeros(p)
     P = np.zeros((p, p))
 
     y = np.zeros((len(x),))
     Uy = np.zeros((len(x),))
 
-    Aabl = np.zeros((p, p, p))
-    for k in range(p):
-        Aabl[0, k, k] = -1
+    # sensitivities that belong to the actual coefficients (a[1:],b)
+    used = np.r_[0:na, p : p + nb]
 
     # implementation of the state-space formulas from the paper
     for n in range(len(y)):
+        dz1 = np.zeros((p, p))
         for k in range(p):  # derivative w.r.t. a_1,...,a_p
-            dz1[:, k] = A * dz[:, k] + np.squeeze(Aabl[:, :, k]) * z
-            phi[k] = c * dz[:, k] - b0 * z[k]
-        phi[p + 1] = -np.matrix(a[1:]) * z + x[n]  # derivative w.r.t. b_0
-        for k in range(p + 2, 2 * p + 1):  # derivative w.r.t. b_1,...,b_p
-            phi[k] = z[k - (p + 1)]
-        P = A * P * A.T + noise[n] ** 2 * (bs * bs.T)
-        y[n] = c * z + b0 * x[n]
-        Uy[n] = phi.T * Uab * phi + c * P * c.T + b[0] ** 2 * noise[n] ** 2
-        z = A * z + bs * x[n]  # update of the state equations
+            dz1[:, k] = np.dot(A, dz[:, k])
+            dz1[0, k] -= z[k]
+            phi[k] = np.dot(c, dz[:, k]) - b0 * z[k]
+        phi[p] = x[n] - np.dot(a[1:], z)  # derivative w.r.t. b_0
+        for k in range(p):  # derivative w.r.t. b_1,...,b_p
+            phi[p + 1 + k] = z[k]
+        y[n] = np.dot(c, z) + b0 * x[n]
+        Uy[n] = (
+            np.dot(phi[used], np.dot(Uab, phi[used]))
+            + np.dot(c, np.dot(P, c))
+            + b0 ** 2 * noise[n] ** 2
+        )
+        # update of the state equations
+        z = np.dot(A, z) + bs * x[n]
+        P = np.dot(A, np.dot(P, A.T)) + noise[n] ** 2 * np.outer(bs, bs)
         dz = dz1
 
     Uy = np.sqrt(np.abs(Uy))  # calculate point-wise standard uncertainties
-- 
2.43.0


From 0acf709eb4dc2b098e3629fc465f13fb48941209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 12/49] fix: normalise covariance of the first block in
 UMC_generic

The update formula expects the unbiased covariance of the preceding blocks, but
the first block contributed the plain sum of squares.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index f64a762..8e35851 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -701,7 +701,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
 
         if m == 0:  # first block
             y = np.mean(Y, axis=0)
-            Uy = np.matmul((Y - y).T, (Y - y))
+            Uy = np.matmul((Y - y).T, (Y - y)) / max(curr_block - 1, 1)
 
         else:  # updating y and Uy from results of current block
             K0 = m * blocksize
-- 
2.43.0


From ff8adb2aedf1cfeabd5d7eb8aa029a88f2f7be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 13/49] fix: UMC_generic evaluates exactly the requested number
 of runs

The condition for the shorter last block was never true.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 8e35851..d033f2d 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -687,10 +687,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         sims = {"samples": np.empty((runs, *input_shape)), "results": np.empty((runs, *output_shape))}
 
     for m in range(nblocks):
-        if m == nblocks:
-            curr_block = runs % blocksize
-        else:
-            curr_block = blocksize
+        curr_block = min(blocksize, runs - m * blocksize)
 
         Y = np.empty((curr_block, np.prod(output_shape)))
         samples = draw_samples(curr_block)
-- 
2.43.0


From 5686af157ee3f2393cfd1637d257760e21176ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 14/49] fix: upper histogram edge of UMC_generic covers all
 results

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index d033f2d..60e1bcc 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -734,7 +734,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     # replace edge limits by ymin and ymax, resp.
     for h in happr.values():
         h["bin-edges"][0, :] = np.min(np.vstack((ymin, h["bin-edges"][0, :])), axis=0)
-        h["bin-edges"][-1, :] = np.min(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
+        h["bin-edges"][-1, :] = np.max(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
 
     if return_samples:
         return y, Uy, happr, output_shape, sims
-- 
2.43.0


From 520151f636ed1c1e2519ad1515f62a3ebc2f6a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 15/49] fix: keep results of parallel Monte Carlo evaluations
 in order of samples

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 60e1bcc..a4ce005 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -645,7 +645,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     else:
         nPool = min(n_cpu, blocksize)
         pool = multiprocessing.Pool(nPool)
-        map_func = pool.imap_unordered
+        map_func = pool.imap
 
     # ------------ preparations for update formulae ------------
 
-- 
2.43.0


From 4f5123a19a70ce9f609896b55721a0553bf1bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 16/49] fix: UMC ignored nbins

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index a4ce005..cf05a5b 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -499,7 +499,7 @@ def UMC(
     evaluate = functools.partial(_UMCevaluate, **params)
 
     # run UMC
-    y, Uy, happr, _ = UMC_generic(draw_samples, evaluate, runs=runs, blocksize=blocksize, runs_init=runs_init)
+    y, Uy, happr, _ = UMC_generic(draw_samples, evaluate, runs=runs, blocksize=blocksize, runs_init=runs_init, nbins=nbins)
 
     # further post-calculation steps
     y_cred_low = np.zeros((len(nbins), len(y)))
-- 
2.43.0


From d3e46744fa72dbd616603e9764d575f5b48eeba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 17/49] fix: shut down worker processes of UMC_generic

The pool was never closed, so that worker processes outlived the call.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index cf05a5b..b30cd44 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -640,12 +640,18 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     # check if parallel computation is required
     # this allows to circumvent a multiprocessing-problem on windows-machines
     # see: https://github.com/PTB-PSt1/PyDynamic/issues/84
+    options = (draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples)
     if n_cpu == 1:
-        map_func = map
-    else:
-        nPool = min(n_cpu, blocksize)
-        pool = multiprocessing.Pool(nPool)
-        map_func = pool.imap
+        return _UMC_blockwise(map, *options)
+    nPool = min(n_cpu, blocksize)
+    with multiprocessing.Pool(nPool) as pool:
+        return _UMC_blockwise(pool.imap, *options)
+
+
+def _UMC_blockwise(
+    map_func, draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples
+):
+    """Block-wise evaluation for :func:`UMC_generic`, with `map_func` applying `evaluate`"""
 
     # ------------ preparations for update formulae ------------
 
-- 
2.43.0


From 38e0e61e0cfdd988579cac016bb403674e365078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 18/49] fix: SMC

Every call failed, because np.ndenumerate yields pairs and not indices.  The
states of the noise model and of the low-pass filter were stacked along the wrong
axis (or as a whole used as noise), filters with Na > Nb or the AR part did not
work, results were stored with the data type of x, and return_samples was ignored.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 101 ++++++++----------
 1 file changed, 44 insertions(+), 57 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index b30cd44..6501a23 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -273,24 +273,16 @@ def SMC(
         Nb = 0
 
     # Initialize noise matrix corresponding to ARMA noise model.
-    if isinstance(theta, np.ndarray) or isinstance(theta, float):
-        MA = True
-        if isinstance(theta, float):
-            W = np.zeros((runs, 1))
-        else:
-            W = np.zeros((runs, len(theta)))
-    else:
-        MA = False  # no moving average part in noise process
+    MA = isinstance(theta, (np.ndarray, float))  # moving average part in noise process
+    if MA:
+        theta = np.atleast_1d(theta)
+        W = np.zeros((runs, len(theta)))
 
     # Initialize for autoregressive part of noise process.
-    if isinstance(phi, np.ndarray) or isinstance(phi, float):
-        AR = True
-        if isinstance(phi, float):
-            E = np.zeros((runs, 1))
-        else:
-            E = np.zeros((runs, len(phi)))
-    else:
-        AR = False  # No autoregressive part in noise process.
+    AR = isinstance(phi, (np.ndarray, float))
+    if AR:
+        phi = np.atleast_1d(phi)
+        E = np.zeros((runs, len(phi)))
 
     # Initialize matrix of low-pass filtered input signal.
     if isinstance(blow, np.ndarray):
@@ -299,9 +291,7 @@ def SMC(
         X = np.zeros(runs)
 
     if isinstance(alow, np.ndarray):
-        Xl = np.zeros((runs, len(alow) - 1))
-    else:
-        Xl = np.zeros((runs, 1))
+        L = np.zeros((runs, len(alow) - 1))
 
     if Na == 0:  # only FIR filter
         coefs = b
@@ -315,15 +305,13 @@ def SMC(
 
     b0 = Coefs[:, Na]
 
-    if Na > 0:  # filter is IIR
-        A = Coefs[:, :Na]
-        if Nb > Na:
-            A = np.hstack((A, np.zeros((runs, Nb - Na))))
-    else:  # filter is FIR -> zero state equations
-        A = np.zeros((runs, Nb))
+    # Coefficients of numerator and denominator padded to the filter order.
+    order = max(Na, Nb)
+    A = np.hstack((Coefs[:, :Na], np.zeros((runs, order - Na))))
+    B = np.hstack((Coefs[:, Na + 1 :], np.zeros((runs, order - Nb))))
 
     # Fixed part of state-space model.
-    c = Coefs[:, Na + 1 :] - np.multiply(np.tile(b0[:, np.newaxis], (1, Nb)), A)
+    c = B - b0[:, np.newaxis] * A
     States = np.zeros(np.shape(A))  # initialise matrix of states
 
     calcP = False  # by default no percentiles requested
@@ -332,53 +320,48 @@ def SMC(
         P = np.zeros((len(Perc), len(x)))
 
     # Initialize outputs.
-    y = np.zeros_like(x)
+    y = np.zeros(len(x))
     # Initialize vector of uncorrelated point-wise uncertainties.
-    Uy = np.zeros_like(x)
+    Uy = np.zeros(len(x))
+    if return_samples:
+        samples = np.zeros((runs, len(x)))
 
     # Start of the actual MC part.
     print("Sequential Monte Carlo progress", end="")
 
-    for index in np.ndenumerate(x):
+    for index in range(len(x)):
 
         w = np.random.randn(runs) * noise_std  # noise process draw
-        if AR and MA:
-            E = np.hstack((E.dot(phi) + W.dot(theta) + w, E[:-1]))
-            W = np.hstack((w, W[:-1]))
-        elif AR:
-            E = np.hstack((E.dot(phi) + w, E[:-1]))
-        elif MA:
-            E = W.dot(theta) + w
-            W = np.hstack((w, W[:-1]))
-        else:
-            w = np.random.randn(runs, 1) * noise_std
-            E = w
-
-        if isinstance(alow, np.ndarray):  # apply low-pass filter
-            X = np.hstack((x[index] + E, X[:, :-1]))
-            Xl = np.hstack(
-                (X.dot(blow.T) - Xl[:, : len(alow)].dot(alow[1:]), Xl[:, :-1])
-            )
-        elif isinstance(blow, np.ndarray):
-            X = np.hstack((x[index] + E, X[:, :-1]))
+        e = w
+        if AR:
+            e = e + E.dot(phi)
+        if MA:
+            e = e + W.dot(theta)
+            W = np.hstack((w[:, np.newaxis], W[:, :-1]))
+        if AR:
+            E = np.hstack((e[:, np.newaxis], E[:, :-1]))
+
+        Xl = x[index] + e
+        if isinstance(blow, np.ndarray):  # apply low-pass filter
+            X = np.hstack((Xl[:, np.newaxis], X[:, :-1]))
             Xl = X.dot(blow)
-        else:
-            Xl = x[index] + E
-
-        # Prepare for easier calculations.
-        if len(Xl.shape) == 1:
-            Xl = Xl[:, np.newaxis]
+            if isinstance(alow, np.ndarray):
+                Xl = Xl - L.dot(alow[1:])
+                L = np.hstack((Xl[:, np.newaxis], L))[:, : len(alow) - 1]
 
         # State-space system output.
         Y = (
             np.sum(np.multiply(c, States), axis=1)
-            + np.multiply(b0, Xl[:, 0])
+            + np.multiply(b0, Xl)
             + (np.random.rand(runs) * 2 * Delta - Delta)
         )
         # Calculate state updates.
-        Z = -np.sum(np.multiply(A, States), axis=1) + Xl[:, 0]
+        Z = -np.sum(np.multiply(A, States), axis=1) + Xl
         # Store state updates and remove old ones.
-        States = np.hstack((Z[:, np.newaxis], States[:, :-1]))
+        States = np.hstack((Z[:, np.newaxis], States))[:, :order]
+
+        if return_samples:
+            samples[:, index] = Y
 
         y[index] = np.mean(Y)  # point-wise best estimate
         Uy[index] = np.std(Y)  # point-wise standard uncertainties
@@ -396,6 +379,10 @@ def SMC(
 
     if calcP:
         P = np.roll(P, int(shift), axis=1)
+
+    if return_samples:
+        return np.roll(samples, int(shift), axis=1)
+    elif calcP:
         return y, Uy, P
     else:
         return y, Uy
-- 
2.43.0


From f2be78da2603a3569b2c0a12bf89c68c691b1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 19/49] fix: LSFIR fitted the reciprocal and left the
 right-hand side unweighted

---
 PyDynamic/model_estimation/fit_filter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 7a0bc7e..d3f8410 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -195,7 +195,7 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
     """
 
     print("\nLeast-squares fit of an order %d digital FIR filter to the" % N)
-    print("reciprocal of a frequency response given by %d values.\n" % len(H))
+    print("frequency response given by %d values.\n" % len(H))
 
     H = H[:, np.newaxis]
 
@@ -217,10 +217,12 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
     else:
         X = np.vstack([np.real(E), np.imag(E)])
 
-    H = H * np.exp(1j * w * tau)
-    iRI = np.vstack([np.real(1.0 / H), np.imag(1.0 / H)])
+    H = H * np.exp(-1j * w * tau)
+    if Wt is not None:
+        H = np.dot(weights, H)
+    RI = np.vstack([np.real(H), np.imag(H)])
 
-    bFIR, res = np.linalg.lstsq(X, iRI)[:2]
+    bFIR, res = np.linalg.lstsq(X, RI)[:2]
 
     if not isinstance(res, np.ndarray):
         print(
-- 
2.43.0


From 30681cbb45f5ae7c3b5acceafb025e2ddc6ca1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 20/49] fix: weighting matrices in LSFIR and invLSFIR

---
 PyDynamic/model_estimation/fit_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index d3f8410..f155bcc 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -209,7 +209,7 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
 
     if Wt is not None:
         if len(np.shape(Wt)) == 2:  # is matrix
-            weights = np.diag(Wt)
+            weights = Wt
         else:
             weights = np.eye(len(f)) * Wt
         X = np.vstack(
@@ -278,7 +278,7 @@ def invLSFIR(H, N, tau, f, Fs, Wt=None):
 
     if Wt is not None:  # set up weighted design matrix if necessary
         if len(np.shape(Wt)) == 2:  # is matrix
-            weights = np.diag(Wt)
+            weights = Wt
         else:
             weights = np.eye(len(f)) * Wt
         X = np.vstack([np.real(np.dot(weights, E)), np.imag(np.dot(weights, E))])
-- 
2.43.0


From 4dcd4926b14b16060ebc1ce2d6544b8494bcc473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 21/49] fix: weight both sides of the least-squares problem in
 invLSFIR

---
 PyDynamic/model_estimation/fit_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index f155bcc..acf610f 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -286,7 +286,10 @@ def invLSFIR(H, N, tau, f, Fs, Wt=None):
         X = np.vstack([np.real(E), np.imag(E)])
 
     Hs = H * np.exp(1j * w * tau)  # apply time delay for improved fit quality
-    iRI = np.vstack([np.real(1.0 / Hs), np.imag(1.0 / Hs)])
+    iHs = 1.0 / Hs
+    if Wt is not None:
+        iHs = np.dot(weights, iHs)
+    iRI = np.vstack([np.real(iHs), np.imag(iHs)])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]  # the actual fitting
 
-- 
2.43.0


From 13607fe2c4ec839a8d37d33f70e9344822157bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 22/49] fix: weighted fit in invLSFIR_unc

---
 PyDynamic/model_estimation/fit_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index acf610f..7ea5ab7 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -383,7 +383,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Step 2: Fit filter coefficients and evaluate uncertainties
     if isinstance(wt, np.ndarray):
-        if wt.shape != np.diag(UiH).shape[0]:
+        if wt.shape != (2 * Nf,):
             raise ValueError("User-defined weighting has wrong dimension.")
     else:
         wt = np.ones(2 * Nf)
@@ -402,6 +402,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
     StSInv[s > 0] = s[s > 0] ** (-2)
 
     M = np.dot(np.dot(np.dot(v.T, np.diag(StSInv)), np.diag(s)), u.T)
+    M = M * wt  # weight the right-hand side in the same way as X
 
     bFIR = np.dot(M, Hri[:, np.newaxis])  # actual fitting
     UbFIR = np.dot(np.dot(M, UiH), M.T)  # evaluation of uncertainties
-- 
2.43.0


From e5aeab36a52338db2918c6514c6018423f082f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 23/49] fix: invLSFIR_unc propagated through the reciprocal of
 the conjugate

---
 PyDynamic/model_estimation/fit_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 7ea5ab7..640f290 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -373,11 +373,11 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Vectorized Monte Carlo for propagation to inverse
     absHMC = HRI[:, :Nf] ** 2 + HRI[:, Nf:] ** 2
-    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) +
+    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) -
                        HRI[:, Nf:] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC,
-                      (HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) -
-                       HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
+                      -(HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) +
+                        HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC))
     UiH = np.cov(HiMC, rowvar=False)
 
-- 
2.43.0


From 02e3d647b9ff0eab166cfbf8547e4e12b4e96665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 24/49] fix: return the delay of the fit with justFit

---
 PyDynamic/model_estimation/fit_filter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 640f290..8d71bb4 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -132,8 +132,7 @@ def LSIIR(Hvals, Nb, Na, f, Fs, tau=0, justFit=False):
         sos = np.sum(
             np.abs((dsp.freqz(b, a, 2 * np.pi * f / Fs)[1] - Hvals) ** 2))
         print("Final sum of squares = %e" % sos)
-        tau = 0
-        return b, a, tau
+        return b, a, int(tau)
 
     if np.count_nonzero(np.abs(np.roots(a)) > 1) > 0:
         stable = False
@@ -548,7 +547,7 @@ def invLSIIR(Hvals, Nb, Na, f, Fs, tau, justFit=False, verbose=True):
     bi, ai = _fitIIR(Hvals, tau, w, E, Na, Nb, inv=True)
 
     if justFit:  # no uncertainty evaluation
-        return bi, ai
+        return bi, ai, int(tau)
 
     if count_nonzero(abs(roots(ai)) > 1) > 0:
         stable = False
-- 
2.43.0


From 83171e861beddff811adbf4d152c94cb058fdad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 25/49] fix: sensitivity of the damping in fit_som

---
 PyDynamic/model_estimation/fit_transfer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_transfer.py b/PyDynamic/model_estimation/fit_transfer.py
index 4df7a06..23026fe 100644
--- a/PyDynamic/model_estimation/fit_transfer.py
+++ b/PyDynamic/model_estimation/fit_transfer.py
@@ -154,9 +154,9 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
                 [
                     [-1 / mu[0] ** 2, 0, 0],
                     [
-                        -mu[1] / (2 * (np.abs(mu[0] + mu[2])) ** (3 / 2)),
-                        1 / np.sqrt(np.abs(mu[0] + mu[2])),
-                        -mu[1] / (2 * np.abs(mu[0] + mu[2]) ** (3 / 2)),
+                        -mu[1] / (2 * mu[0] * np.sqrt(np.abs(mu[0] * mu[2]))),
+                        1 / np.sqrt(np.abs(mu[0] * mu[2])),
+                        -mu[1] / (2 * mu[2] * np.sqrt(np.abs(mu[0] * mu[2]))),
                     ],
                     [
                         1 / (4 * np.pi * mu[2] * np.sqrt(np.abs(mu[0] / mu[2]))),
-- 
2.43.0


From 6e4282e6faf69f1287809fe2e557f3621a5e3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 26/49] fix: fit_som weighting by uncertainties needs UH

---
 PyDynamic/model_estimation/fit_transfer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/model_estimation/fit_transfer.py b/PyDynamic/model_estimation/fit_transfer.py
index 23026fe..9f4b9b6 100644
--- a/PyDynamic/model_estimation/fit_transfer.py
+++ b/PyDynamic/model_estimation/fit_transfer.py
@@ -84,6 +84,8 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
         iURI = np.cov(iRI, rowvar=False)
 
     if isinstance(weighting, str):
+        if weighting in ("diag", "cov") and not isinstance(UH, np.ndarray):
+            raise ValueError("weighting='%s' requires UH." % weighting)
         if weighting == "diag":
             W = np.diag(np.diag(iURI))
         elif weighting == "cov":
-- 
2.43.0


From e2ab4eaa90fe55f4effe8c2a6ea70780a53e8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 27/49] fix: make_semiposdef ignored maxiter for dense matrices

---
 PyDynamic/misc/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 35a81e0..2391f7e 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -216,8 +216,9 @@ def make_semiposdef(
         count = 0
         e = np.real(np.linalg.eigvals(matrix)).min()
         while e < tol and count < maxiter:
-            e = np.real(np.linalg.eigvals(matrix)).min()
             matrix += (np.absolute(e) + tol) * np.eye(n)
+            e = np.real(np.linalg.eigvals(matrix)).min()
+            count += 1
         e = np.real(np.linalg.eigvals(matrix)).min()
     if verbose:
         print("Final result of make_semiposdef: smallest eigenvalue is %e" % e)
-- 
2.43.0


From eea6695fb3f2ae7bebe207baef285088a3e1e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 28/49] fix: FreqResp2RealImag averaged over frequencies

---
 PyDynamic/misc/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 2391f7e..962878a 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -269,8 +269,8 @@ def FreqResp2RealImag(Abs, Phase, Unc, MCruns=1e4):
     )  # calculate complex frequency response values
     RI = np.hstack((np.real(H), np.imag(H)))  # transform to real, imag
 
-    Re = np.mean(RI[:, :Nf])
-    Im = np.mean(RI[:, Nf:])
+    Re = np.mean(RI[:, :Nf], axis=0)
+    Im = np.mean(RI[:, Nf:], axis=0)
     URI = np.cov(RI, rowvar=False)
 
     return Re, Im, URI
-- 
2.43.0


From 3fddd8e50506549ab359131e05d24dfe8d3df276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 29/49] fix: delay of kaiser_lowpass

---
 PyDynamic/misc/filterstuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index c719425..ff2ef84 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -141,7 +141,7 @@ def kaiser_lowpass(L, fcut, Fs, beta=8.0):
     if np.mod(L, 2) == 0:
         L = L + 1
     blow = firwin(L, 2 * fcut / Fs, window=("kaiser", beta))
-    shift = L / 2
+    shift = (L - 1) // 2
     return blow, shift
 
 
-- 
2.43.0


From b7d1eecabc731064ffc28716b020059d367ae801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 30/49] fix: stability of analog filters

---
 PyDynamic/misc/filterstuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index ff2ef84..66c1d63 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -169,7 +169,7 @@ def isstable(b, a, ftype="digital"):
     if ftype == "digital":
         return not np.any(np.abs(v) > 1.0)
     elif ftype == "analog":
-        return not np.any(np.real(v) < 0)
+        return not np.any(np.real(v) > 0)
     else:
         raise ValueError(f"isstable: filter type 'ftype={ftype}'unknown. Please "
                          f"check documentation and choose a valid assignment for "
-- 
2.43.0


From 0d3a8dec33718f6b0de3a749fbd3669bb6c3b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 31/49] fix: order of the coefficients in ARMA

---
 PyDynamic/misc/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/noise.py b/PyDynamic/misc/noise.py
index a122ee1..eafdc40 100644
--- a/PyDynamic/misc/noise.py
+++ b/PyDynamic/misc/noise.py
@@ -200,6 +200,6 @@ def ARMA(length, phi=0.0, theta=0.0, std=1.0):
     for n, wn in enumerate(w):
         min_pn = min(p, n)
         min_qn = min(q, n)
-        e[n] = np.sum(phi[:min_pn].dot(e[n-min_pn:n])) + np.sum(theta[:min_qn].dot(w[n-min_qn:n])) + wn
+        e[n] = np.sum(phi[:min_pn].dot(e[n-min_pn:n][::-1])) + np.sum(theta[:min_qn].dot(w[n-min_qn:n][::-1])) + wn
 
     return e
-- 
2.43.0


From 98b4db96846d5fbf491cab4734de56c19c37f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 32/49] fix: power_law_noise with N and w

---
 PyDynamic/misc/noise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/misc/noise.py b/PyDynamic/misc/noise.py
index eafdc40..535820b 100644
--- a/PyDynamic/misc/noise.py
+++ b/PyDynamic/misc/noise.py
@@ -11,6 +11,8 @@ This module contains the following functions:
 * :func:`ARMA`: autoregressive moving average noise process
 """
 
+import warnings
+
 import numpy as np
 from scipy.linalg import toeplitz
 
@@ -90,7 +92,7 @@ def power_law_noise(N=None, w=None, color_value="white", mean=0.0, std=1.0):
     """
 
     if (N is not None) and (w is not None):
-        raise UserWarning("You specified N and w. Ignoring N.")
+        warnings.warn("You specified N and w. Ignoring N.", UserWarning)
 
     # draw white gaussian noise, or take the provided w
     if isinstance(w, np.ndarray):
-- 
2.43.0


From 52c81d1c28246a05c43ce25b8adfe8c9fa261983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 33/49] fix: noise level of multi_sine

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index e2fc16a..eacc0f9 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -211,7 +211,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
     x = np.zeros_like(time)
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
-    x += np.random.randn(len(x)) * noise ** 2
+    x += np.random.randn(len(x)) * noise
     return x
 
 
-- 
2.43.0


From 34096a158195fb65aa9239b57c2676e95050dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 34/49] fix: multi_sine and squarepulse on integer time axes

---
 PyDynamic/misc/testsignals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index eacc0f9..54016c3 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -155,7 +155,7 @@ def squarepulse(time, height, numpulse=4, noise=0.0):
             signal amplitude at time instants
     """
     width = (time[-1] - time[0]) / (2 * numpulse + 1)  # width of each individual rect
-    x = np.zeros_like(time)
+    x = np.zeros(len(time))
     for k in range(numpulse):
         x += rect(time, (2 * k + 1) * width, (2 * k + 2) * width, height)
     if noise > 0:
@@ -208,7 +208,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
             signal amplitude at time instants
     """
 
-    x = np.zeros_like(time)
+    x = np.zeros(len(time))
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
     x += np.random.randn(len(x)) * noise
-- 
2.43.0


From 0033f89a18b96b70ccc186aed156bdc9ad416c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 35/49] fix: corr_noise.calc_noise2

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index 54016c3..6873a8d 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -240,7 +240,7 @@ class corr_noise(object):
         return self.noise
 
     def calc_noise2(self, N=100):
-        P = np.ceil(1.5 * N)
+        P = int(np.ceil(1.5 * N))
         NT = self.rst.randn(P) * self.sigma
         STD = np.zeros(21)
         STD[10] = 1.0
-- 
2.43.0


From 43c1ddcd504505f107eeb92f6029b52baa3fdeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 36/49] fix: multi_sine takes angular frequencies

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index 6873a8d..808d308 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -198,7 +198,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
         amps: list or np.ndarray of floating point values
             amplitudes of the sine signals
         freqs: list or np.ndarray of floating point values
-            frequencies of the sine signals in Hz
+            angular frequencies of the sine signals in rad/s
         noise: float, optional
             std of simulated signal noise (default = 0.0)
 
-- 
2.43.0


From d046f7848b2f5ea7b1c218e3045a9398c5a68e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 37/49] fix: FIR filters with a single coefficient

---
 PyDynamic/uncertainty/propagate_filter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 4994b89..efefdc6 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -86,8 +86,9 @@ def _fir_filter(x, theta, Ux=None, Utheta=None, initial_conditions="constant"):
             f"However, only 'zero' or 'constant' are currently supported."
         )
 
-    # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    # propagate filter (a single coefficient has no internal state)
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy = np.zeros((len(x), len(x)))
@@ -188,8 +189,9 @@ def _fir_filter_diag(
             f"However, only 'zero' or 'constant' are currently supported."
         )
 
-    # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    # propagate filter (a single coefficient has no internal state)
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy_diag = np.zeros(len(x))
-- 
2.43.0


From ae07886a4079c8951975f2aa0d684391b1548437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 38/49] fix: standard uncertainties of the coefficients in
 FIRuncFilter

---
 PyDynamic/uncertainty/propagate_filter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index efefdc6..fa3f041 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -389,6 +389,12 @@ def FIRuncFilter(
                 "Unsupported value of sigma_noise. Please check the documentation."
             )
 
+        # get covariance of the filter coefficients from standard uncertainties
+        if isinstance(Utheta, float):
+            Utheta = np.diag(np.full(Ntheta, Utheta ** 2))
+        elif isinstance(Utheta, np.ndarray) and len(Utheta.shape) == 1:
+            Utheta = np.diag(Utheta ** 2)
+
         # filter operation(s)
         if isinstance(blow, np.ndarray):
             # apply (fully certain) lowpass-filter
-- 
2.43.0


From c3a809f9e830e5045ce835eedf9248136ddaa300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 39/49] fix: interp1d_unc raised for fill_value='extrapolate'

---
 PyDynamic/uncertainty/interpolate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index ccb0267..df0c2ac 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -166,6 +166,7 @@ def interp1d_unc(
         # respectively but handle those cases separately.
         if fill_value == "extrapolate":
             fill_value = y[0], y[-1]
+            interp1d_params["bounds_error"] = False
 
         if fill_unc == "extrapolate":
             fill_unc = uy[0], uy[-1]
-- 
2.43.0


From 49bff676b4871463bb36c3bad7bbc967f95758d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 40/49] fix: interp1d_unc with integer fill_unc

---
 PyDynamic/uncertainty/interpolate.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index df0c2ac..b235fc5 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -220,14 +220,13 @@ def interp1d_unc(
 
         # If extrapolation is needed, fill in the values provided via fill_unc.
         if np.any(extrap_range):
-            # At this point fill_unc is either a float (np.nan is a float as well) or
-            # a 2-tuple of floats. In case we have one float we set uy_new to this value
-            # inside the extrapolation range.
-            if isinstance(fill_unc, float):
-                uy_new[extrap_range] = fill_unc
-            else:
-                # Now fill_unc should be a 2-tuple, which we can fill into uy_new.
+            # At this point fill_unc is either a number (np.nan is a float as well) or
+            # a 2-tuple of numbers. In case we have one number we set uy_new to this
+            # value inside the extrapolation range.
+            if isinstance(fill_unc, tuple) and len(fill_unc) == 2:
                 uy_new[extrap_range_below], uy_new[extrap_range_above] = fill_unc
+            else:
+                uy_new[extrap_range] = fill_unc
 
             if returnC:
                 # In each row of C corresponding to an extrapolation value below the
-- 
2.43.0


From 5b37767db608f4380dcaf87393d43971c5690be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 41/49] fix: importing PyDynamic reset the warning filters

---
 PyDynamic/identification/fit_filter.py   | 1 -
 PyDynamic/identification/fit_transfer.py | 1 -
 PyDynamic/uncertainty/interpolation.py   | 1 -
 3 files changed, 3 deletions(-)

diff --git a/PyDynamic/identification/fit_filter.py b/PyDynamic/identification/fit_filter.py
index a46548c..364b245 100644
--- a/PyDynamic/identification/fit_filter.py
+++ b/PyDynamic/identification/fit_filter.py
@@ -20,7 +20,6 @@ from ..model_estimation.fit_filter import LSFIR, LSIIR
 
 __all__ = ["LSIIR", "LSFIR"]
 
-warnings.simplefilter("default")
 warnings.warn(
     "The module *identification* will be combined with the module "
     "*deconvolution* and renamed to *model_estimation* in the "
diff --git a/PyDynamic/identification/fit_transfer.py b/PyDynamic/identification/fit_transfer.py
index 270c4f4..ace6846 100644
--- a/PyDynamic/identification/fit_transfer.py
+++ b/PyDynamic/identification/fit_transfer.py
@@ -19,7 +19,6 @@ from ..model_estimation.fit_transfer import fit_som
 
 __all__ = ["fit_sos"]
 
-warnings.simplefilter("default")
 warnings.warn(
     "The package *identification* will be combined with the package "
     "*deconvolution* and renamed to *model_estimation* in the "
diff --git a/PyDynamic/uncertainty/interpolation.py b/PyDynamic/uncertainty/interpolation.py
index 65c82b5..f728eee 100644
--- a/PyDynamic/uncertainty/interpolation.py
+++ b/PyDynamic/uncertainty/interpolation.py
@@ -20,7 +20,6 @@ from .interpolate import interp1d_unc
 
 __all__ = ["interp1d_unc"]
 
-warnings.simplefilter("default")
 warnings.warn(
     "The module :mod:`PyDynamic.uncertainty.interpolation` will be renamed to "
     ":mod:`PyDynamic.uncertainty.interpolate` in the next major release 2.0.0. From "
-- 
2.43.0


From 465fedfcae5de6e59a50b74968a594c564be8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 42/49] fix: make_equidistant missing in PyDynamic.uncertainty

---
 PyDynamic/uncertainty/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/__init__.py b/PyDynamic/uncertainty/__init__.py
index b7f7e79..c82deb3 100644
--- a/PyDynamic/uncertainty/__init__.py
+++ b/PyDynamic/uncertainty/__init__.py
@@ -24,7 +24,7 @@ from .propagate_filter import FIRuncFilter, IIRuncFilter
 
 from .propagate_MonteCarlo import MC, SMC, UMC, UMC_generic
 
-from .interpolation import interp1d_unc
+from .interpolate import interp1d_unc, make_equidistant
 
 __all__ = [
     "GUM_DFT",
@@ -42,4 +42,5 @@ __all__ = [
     "UMC",
     "UMC_generic",
     "interp1d_unc",
+    "make_equidistant",
 ]
-- 
2.43.0


From 3927767d248bd0be809bb2340c6348a28cd215d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 43/49] fix: Signal ignored Fs without Ts and integer Ts

---
 PyDynamic/signals.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 27b5006..d4222f0 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -35,7 +35,10 @@ class Signal:
         if (Ts is None) and (Fs is None):
             self.Ts = np.unique(np.diff(self.time)).mean()
             self.Fs = 1 / self.Ts
-        elif isinstance(Ts, float):
+        elif Ts is None:
+            self.Fs = Fs
+            self.Ts = 1 / Fs
+        else:
             self.Ts = Ts
             if Fs is None:
                 self.Fs = 1 / Ts
-- 
2.43.0


From ed5c566449b241a32648f6475d73f4ec7583679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 44/49] fix: uncertainty of Signal ignored or of wrong size

---
 PyDynamic/signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index d4222f0..9b0ad70 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -47,14 +47,14 @@ class Signal:
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
         # set initial uncertainty
-        if isinstance(uncertainty, float):
+        if isinstance(uncertainty, (int, float)):
             self.uncertainty = np.ones_like(values) * uncertainty
         elif isinstance(uncertainty, np.ndarray):
             uncertainty = uncertainty.squeeze()
             if len(uncertainty.shape) == 1:
                 assert len(uncertainty) == len(time)
             else:
-                assert uncertainty.shape[0] == uncertainty.shape[1]
+                assert uncertainty.shape == (len(time), len(time))
             self.uncertainty = uncertainty
         else:
             self.uncertainty = np.zeros_like(values)
-- 
2.43.0


From 0d94a3c11aa0bdfdffd209969019b3893d5547ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 45/49] fix: Signal.apply_filter

---
 PyDynamic/signals.py | 50 ++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 9b0ad70..0b8fd1a 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -124,39 +124,25 @@ class Signal:
         if isinstance(a, list):
             a = np.array(a)
         if not (isinstance(a, np.ndarray)):  # FIR type filter
-            if len(self.uncertainty.shape) == 1:
-                if not isinstance(MonteCarloRuns, int):
-                    self.values, self.uncertainty = FIRuncFilter(
-                        self.values, self.uncertainty, b, Utheta=filter_uncertainty
-                    )
-                else:
-                    self.values, self.uncertainty = MC(
-                        self.values,
-                        self.uncertainty,
-                        b,
-                        a,
-                        filter_uncertainty,
-                        runs=MonteCarloRuns,
-                    )
-            else:
-                if not isinstance(MonteCarloRuns, int):
-                    MonteCarloRuns = 10000
-                self.values, self.uncertainty = MC(
+            if len(self.uncertainty.shape) == 1 and not isinstance(MonteCarloRuns, int):
+                self.values, self.uncertainty = FIRuncFilter(
                     self.values,
                     self.uncertainty,
                     b,
-                    a,
-                    filter_uncertainty,
-                    runs=MonteCarloRuns,
-                )
-        else:  # IIR-type filter
-            if not isinstance(MonteCarloRuns, int):
-                MonteCarloRuns = 10000
-                self.values, self.uncertainty = MC(
-                    self.values,
-                    self.uncertainty,
-                    b,
-                    a,
-                    filter_uncertainty,
-                    runs=MonteCarloRuns,
+                    Utheta=filter_uncertainty,
+                    kind="diag",
                 )
+                return
+            a = np.array([1.0])
+        if not isinstance(MonteCarloRuns, int):
+            MonteCarloRuns = 10000
+        if filter_uncertainty is None:
+            filter_uncertainty = np.zeros((len(a) + len(b) - 1,) * 2)
+        self.values, self.uncertainty = MC(
+            self.values,
+            self.uncertainty,
+            b,
+            a,
+            filter_uncertainty,
+            runs=MonteCarloRuns,
+        )
-- 
2.43.0


From a80801c20147b104d40208fed550bb6e9cadb749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 46/49] fix: keep PyDynamic.uncertainty.interpolation
 accessible

---
 PyDynamic/uncertainty/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/__init__.py b/PyDynamic/uncertainty/__init__.py
index c82deb3..9445288 100644
--- a/PyDynamic/uncertainty/__init__.py
+++ b/PyDynamic/uncertainty/__init__.py
@@ -24,7 +24,8 @@ from .propagate_filter import FIRuncFilter, IIRuncFilter
 
 from .propagate_MonteCarlo import MC, SMC, UMC, UMC_generic
 
-from .interpolate import interp1d_unc, make_equidistant
+from .interpolate import make_equidistant
+from .interpolation import interp1d_unc
 
 __all__ = [
     "GUM_DFT",
-- 
2.43.0


From cdb94ca0024ff216bc69292591580290ff28d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 47/49] fix: GUM_DFT returns the sensitivity matrix for a noise
 variance given as float

With returnC=True and Ux given as a float the returned dictionary contained
None instead of the documented sensitivity matrix blocks.
---
 PyDynamic/uncertainty/propagate_DFT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index a0e52ed..29c44b6 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -308,6 +308,9 @@ def GUM_DFT(
             if mask[k]:
                 UF[Nm // 2 + km] = np.sum(Ux * Cxks(k) ** 2)
                 km += 1
+        if returnC and not isinstance(CxCos, np.ndarray):
+            k_beta = np.outer(np.arange(M // 2)[mask], beta)
+            CxCos, CxSin = np.cos(k_beta), -np.sin(k_beta)
     else:  # general method
         if len(Ux.shape) == 1:
             Ux = np.diag(Ux)
-- 
2.43.0


From 9ece545dbeb75290ebc707c21ff8b8a2ec009be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 48/49] fix: squarepulse on time axes not starting at zero

---
 PyDynamic/misc/testsignals.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index 808d308..1078826 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -157,7 +157,12 @@ def squarepulse(time, height, numpulse=4, noise=0.0):
     width = (time[-1] - time[0]) / (2 * numpulse + 1)  # width of each individual rect
     x = np.zeros(len(time))
     for k in range(numpulse):
-        x += rect(time, (2 * k + 1) * width, (2 * k + 2) * width, height)
+        x += rect(
+            time,
+            time[0] + (2 * k + 1) * width,
+            time[0] + (2 * k + 2) * width,
+            height,
+        )
     if noise > 0:
         x += np.random.randn(len(time)) * noise
     return x
-- 
2.43.0


From 1017b72d5a7fb54130ce8456ba118371f7f982f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 49/49] fix: Signal lost Fs when given together with Ts

---
 PyDynamic/signals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 0b8fd1a..a72c4d1 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -46,6 +46,7 @@ class Signal:
                 assert np.abs(Fs * self.Ts - 1) < 1e-5, (
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
+                self.Fs = Fs
         # set initial uncertainty
         if isinstance(uncertainty, (int, float)):
             self.uncertainty = np.ones_like(values) * uncertainty
-- 
2.43.0

