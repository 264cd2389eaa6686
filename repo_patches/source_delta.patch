From 4ade2ccb6e8789b2fbb6e405c2e4714de8ff3e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 001/100] fix: reduced density matrices were transposed (rho[s,
 t] must be <s|rho|t>)

---
 evoMPS/mps_gen.py     | 6 +++---
 evoMPS/mps_uniform.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 7270f74..bcc8e36 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1075,7 +1075,7 @@ class EvoMPS_MPS_Generic(object):
         r_nm1 = sp.empty_like(self.r[n - 1])
         for s in range(self.q[n]):
             for t in range(self.q[n]):
-                r_nm1 = m.mmul(self.A[n][t], r_n, m.H(self.A[n][s]))                
+                r_nm1 = m.mmul(self.A[n][s], r_n, m.H(self.A[n][t]))                
                 rho[s, t] = m.adot(self.l[n - 1], r_nm1)
         return rho
         
@@ -1103,7 +1103,7 @@ class EvoMPS_MPS_Generic(object):
         
         for s2 in range(self.q[n2]):
             for t2 in range(self.q[n2]):
-                r_n2 = m.mmul(self.A[n2][t2], self.r[n2], m.H(self.A[n2][s2]))
+                r_n2 = m.mmul(self.A[n2][s2], self.r[n2], m.H(self.A[n2][t2]))
                 
                 r_n = r_n2
                 for n in reversed(range(n1 + 1, n2)):
@@ -1111,7 +1111,7 @@ class EvoMPS_MPS_Generic(object):
                     
                 for s1 in range(self.q[n1]):
                     for t1 in range(self.q[n1]):
-                        r_n1 = m.mmul(self.A[n1][t1], r_n, m.H(self.A[n1][s1]))
+                        r_n1 = m.mmul(self.A[n1][s1], r_n, m.H(self.A[n1][t1]))
                         tmp = m.adot(self.l[n1 - 1], r_n1)
                         rho[s1 * self.q[n1] + s2, t1 * self.q[n1] + t2] = tmp
         return rho
diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index c18943c..1795413 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1538,7 +1538,7 @@ class EvoMPS_MPS_Uniform(object):
         rho = np.empty((self.q, self.q), dtype=self.typ)
         for s in range(self.q):
             for t in range(self.q):                
-                rho[s, t] = m.adot(self.l[k - 1], m.mmul(self.A[k][t], self.r[k], m.H(self.A[k][s])))
+                rho[s, t] = m.adot(self.l[k - 1], m.mmul(self.A[k][s], self.r[k], m.H(self.A[k][t])))
         return rho
                 
     def apply_op_1s(self, op, k=0, do_update=True):
-- 
2.43.0


From 8b4f9a70da8cebe2f5dc84251df7cca19f2947f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 002/100] fix: density_2s used the wrong stride for sites of
 different dimension

---
 evoMPS/mps_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index bcc8e36..e66e8cf 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1082,7 +1082,7 @@ class EvoMPS_MPS_Generic(object):
     def density_2s(self, n1, n2):
         """Returns a reduced density matrix for a pair of (seperated) sites.
         
-        The site number basis is used: rho[s * q[n1] + u, t * q[n1] + v]
+        The site number basis is used: rho[s * q[n2] + u, t * q[n2] + v]
         with 0 <= s, t < q[n1] and 0 <= u, v < q[n2].
         
         The state must be up-to-date -- see self.update()!
@@ -1113,7 +1113,7 @@ class EvoMPS_MPS_Generic(object):
                     for t1 in range(self.q[n1]):
                         r_n1 = m.mmul(self.A[n1][s1], r_n, m.H(self.A[n1][t1]))
                         tmp = m.adot(self.l[n1 - 1], r_n1)
-                        rho[s1 * self.q[n1] + s2, t1 * self.q[n1] + t2] = tmp
+                        rho[s1 * self.q[n2] + s2, t1 * self.q[n2] + t2] = tmp
         return rho
     
     def apply_op_1s(self, op, n, do_update=True):
-- 
2.43.0


From ef7f7aa7f63eda37ceccdeb7ab28f0c3baf51b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 003/100] fix: finite correlation_1s_1s returned op1's
 expectation values as op2's and failed for d = 0

---
 evoMPS/mps_gen.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index e66e8cf..afb4845 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -989,9 +989,7 @@ class EvoMPS_MPS_Generic(object):
             ccf[j] = cf[j] - ex1[0] * ex2[j]
             
         if return_exvals:
-            ex1_ = sp.tile(ex1, [(d + 1) // d + 1])[:d + 1]
-            ex2_ = sp.tile(ex1, [(d + 1) // d + 1])[:d + 1]
-            return ccf, ex1_, ex2_
+            return ccf, ex1, ex2
         else:
             return ccf
         
-- 
2.43.0


From 75a1f4d31dcb3da06d788c8fadb3e372869a9cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 004/100] fix: expect_string_1s returned lengths 2..d+1
 (finite), adjoint-ordered values, and rejected callables (finite)

---
 evoMPS/mps_gen.py     | 8 ++++----
 evoMPS/mps_uniform.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index afb4845..6ebf031 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -999,14 +999,14 @@ class EvoMPS_MPS_Generic(object):
         """
         if callable(op):
             op = sp.vectorize(op, otypes=[sp.complex128])
-            op = sp.fromfunction(op, (self.q, self.q))
+            op = sp.fromfunction(op, (self.q[n], self.q[n]))
         
         res = sp.zeros((d), dtype=self.get_A(1).dtype)
         x = self.get_l(n - 1)
-        for j in range(n, n + d + 1):
+        for j in range(n, n + d):
             Aop = sp.tensordot(op, self.get_A(j), axes=([1],[0]))
-            x = tm.eps_l_noop(x, self.get_A(j), Aop)
-            res[j - n - 1] = m.adot(x, self.get_r(j))
+            x = tm.eps_l_noop(x, Aop, self.get_A(j))
+            res[j - n] = m.adot(x, self.get_r(j))
         
         return res
 
diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 1795413..21134e3 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1805,9 +1805,9 @@ class EvoMPS_MPS_Uniform(object):
         
         res = []
         x = self.l[(k - 1) % self.L]
-        for n in range(k, k + d + 1):
+        for n in range(k, k + d):
             nm = n % self.L
-            x = tm.eps_l_noop(x, self.A[nm], Aop[nm])
+            x = tm.eps_l_noop(x, Aop[nm], self.A[nm])
             res.append(m.adot(x, self.r[nm]))
         
         return np.array(res)
-- 
2.43.0


From 74b0bc4d42a629c74ffb668c57b0a55c0038afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 005/100] fix: restore_LCF_l_seq stored an identity of the old
 size when a bond dimension shrinks

---
 evoMPS/tdvp_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index e07a466..4d22afc 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -1012,7 +1012,7 @@ def restore_LCF_l_seq(A, l, G0=None, sanity_checks=False, sc_data=''):
 
         A[n] = Q.reshape((q, Dm1_new, D_new))
         
-        l[n] = mm.eyemat(D, dtype=A[n].dtype)
+        l[n] = mm.eyemat(D_new, dtype=A[n].dtype)
         
         if sanity_checks:
             l_ = eps_l_noop(l[n - 1], A[n], A[n])
-- 
2.43.0


From 145d91569660c9a1a78705e7ae5b80cdabaad9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 006/100] fix: auto-truncation in left canonical form failed
 when skipping the second restoration

---
 evoMPS/mps_gen.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 6ebf031..5c101f8 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -667,8 +667,6 @@ class EvoMPS_MPS_Generic(object):
                 
             self.calc_r(n_high=n_last_trunc - 1)
         else:
-            self.l[0][0, 0] = 1
-            
             for n in range(1, self.N):
                 self.r[n] = m.simple_diag_matrix(old_r[n].diag[-self.D[n]:], dtype=self.typ)
                 
-- 
2.43.0


From 80a497e8531490b6f8b5deaa22a9c3d447228b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 007/100] fix: truncate() failed when no bond dimension is
 reduced

---
 evoMPS/mps_gen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 5c101f8..040e9a6 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -634,8 +634,9 @@ class EvoMPS_MPS_Generic(object):
         assert new_D.shape == self.D.shape, "new_D must have same shape as self.D"
         assert sp.all(new_D <= self.D), "new bond-dimensions must be less than or equal to current dimensions"
     
-        last_trunc = sp.argwhere(self.D - new_D).max()
-        first_trunc = sp.argwhere(self.D - new_D).min()
+        changed = sp.argwhere(self.D - new_D)
+        last_trunc = changed.max() if changed.size > 0 else 0
+        first_trunc = changed.min() if changed.size > 0 else self.N
         
         tmp_A = self.A
         old_l = self.l
-- 
2.43.0


From 3fdda8083c97ef9e7b737f545b91ca2e30ea5ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 008/100] fix: set_state_product dropped local components (site
 index off by one)

---
 evoMPS/mps_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 040e9a6..e9bc4a8 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -228,7 +228,7 @@ class EvoMPS_MPS_Generic(object):
 
         for n in range(self.N):
             self.A[n+1].fill(0)
-            for q in range(self.q[n]):
+            for q in range(self.q[n+1]):
                 self.A[n+1][q,0,0] = psi[n][q]
 
         if do_update:
-- 
2.43.0


From be0b428b0a78b94eb07ca9e81a3733e516b62a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 009/100] fix: mps_from_tensors_gen failed for bond dimensions
 above the useful maximum

---
 evoMPS/mps_gen.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index e9bc4a8..dae5083 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -49,11 +49,7 @@ def mps_from_tensors_gen(A, do_update=True):
     q = [0] + [An.shape[0] for An in A[1:]]
 
     s = EvoMPS_MPS_Generic(N, D, q)
-    for n in range(1, N+1):
-        s.A[n][:] = A[n]
-
-    if do_update:
-        s.update()
+    s.set_state_from_tensors(A, do_update=do_update)
 
     return s
 
-- 
2.43.0


From 9d6ac7db43d646cfa52b9b8168b335719af3bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 010/100] fix: load_state could not read the files save_state
 writes (finite chains)

---
 evoMPS/mps_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index dae5083..e28d523 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1192,7 +1192,7 @@ class EvoMPS_MPS_Generic(object):
         file ; path or file
             The file to load the state from.
         """
-        tmp_A = sp.load(file)
+        tmp_A = sp.load(file, allow_pickle=True)
 
         self.D[0] = 1
         for n in range(self.N):
-- 
2.43.0


From 5245b9245b92df8ced13c4860aec072b0f5a4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 011/100] fix: constructing a chain failed when a bond
 dimension exceeds q times its neighbour's

---
 evoMPS/mps_gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index e28d523..97caae1 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -193,7 +193,8 @@ class EvoMPS_MPS_Generic(object):
                 if self.D[n] > self.D[n - 1]:
                     f = 1.
                 
-                for i in range(max((self.D[n], self.D[n - 1]))):
+                rank = self.q[n] * min((self.D[n], self.D[n - 1]))
+                for i in range(min((rank, max((self.D[n], self.D[n - 1]))))):
                     self.A[n][s, x, y] = f
                     x += 1
                     y += 1
-- 
2.43.0


From a72773fde0996fa33c24221f9ef5c5b763d72529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 012/100] fix: calc_K_l failed for absent Hamiltonian terms

---
 evoMPS/tdvp_gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 22d49b4..8a3a00d 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -431,7 +431,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             
         for n in range(n_low, n_high + 1):
             #if n <= self.N - self.ham_sites + 1:
-            if self.ham_sites == 2:
+            if self.C[n - self.ham_sites + 1] is None:
+                self.K[n], ex = (tm.eps_l_noop(self.K[n - 1], self.A[n], self.A[n]), 0)
+            elif self.ham_sites == 2:
                 self.K[n], ex = tm.calc_K_l(self.K[n - 1], self.C[n - 1], self.l[n - 2], 
                                             self.r[n], self.A[n], self.AA[n - 1])
             else:
-- 
2.43.0


From ffa9b0c6d7ac5032c4a68df77416bce3cabe7bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 013/100] fix: calc_K_l stored three-site term energies at the
 wrong index

---
 evoMPS/tdvp_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 8a3a00d..d5c4b42 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -441,7 +441,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.K[n - 1], self.C[n - 2], self.l[n - 3], self.r[n],
                     self.A[n], self.AAA[n - 2])
 
-            self.h_expect[n - 1] = ex
+            self.h_expect[n - self.ham_sites + 1] = ex
             #else:
             #    self.K[n].fill(0)
                 
-- 
2.43.0


From 9f5e33357dbc768c1cd4368c88c4ded3e716d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 014/100] fix: expect_2s/expect_3s failed when the Hamiltonian
 is a function, absent, or has three-site terms (last pair)

---
 evoMPS/tdvp_gen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index d5c4b42..66f5c86 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1392,6 +1392,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             self.H_expect += HMR[0][0, 0]
 
         
+    def _is_ham_term(self, op, n):
+        return not (op is None or self.ham is None or callable(self.ham)) and op is self.ham[n]
+
     def expect_2s(self, op, n, AA=None):
         """Computes the expectation value of a nearest-neighbour two-site operator.
         
@@ -1416,7 +1419,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         if AA is None:
             AA = self.AA[n]
         
-        if not op is None and op is self.ham[n] and self.ham_sites == 2:
+        if self.ham_sites == 2 and self._is_ham_term(op, n):
             res = tm.eps_r_op_2s_C12_AA34(self.r[n + 1], self.C[n], AA)
             return m.adot(self.l[n - 1], res)
         else:
@@ -1450,7 +1453,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             else:
                 AAA = tm.calc_AAA_AA(self.AA[n], self.A[n + 2])
                 
-        if not op is None and op is self.ham[n] and self.ham_sites == 3:
+        if self.ham_sites == 3 and self._is_ham_term(op, n):
             res = tm.eps_r_op_3s_C123_AAA456(self.r[n + 2], self.C[n], AAA)
             return m.adot(self.l[n - 1], res)
         else:
-- 
2.43.0


From e5b5284ca7c396e90d5bc39094c12332238b96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 015/100] fix: the TDVP tangent vector could not be calculated
 when Hamiltonian terms are absent

---
 evoMPS/tdvp_common.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 4d22afc..1defc97 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -425,11 +425,13 @@ def calc_x_3s(Kp1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, Am2Am1, Am1, A, Ap1, Ap1Ap2,
     x = np.zeros((Dm1, q * D - Dm1), dtype=A.dtype)
     x_part = np.empty_like(x, order='C')
     
-    assert not (C is None and not Kp1 is None)
-    if not C is None:
+    if not (C is None and Kp1 is None):
         x_part.fill(0)
         for s in range(q):            
-            x_subpart = eps_r_op_2s_C12_AA34(rp2, C[s], Ap1Ap2) #~1st line
+            if C is None:
+                x_subpart = np.zeros_like(A[s])
+            else:
+                x_subpart = eps_r_op_2s_C12_AA34(rp2, C[s], Ap1Ap2) #~1st line
             
             if not Kp1 is None:
                 x_subpart += A[s].dot(Kp1) #~3rd line
@@ -451,7 +453,7 @@ def calc_x_3s(Kp1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, Am2Am1, Am1, A, Ap1, Ap1Ap2,
             x_part += x_subpart.dot(r_si.dot(Vsh[t]))
         x += lm1_si.dot(x_part)
 
-    if not lm3 is None:
+    if not lm3 is None and not Cm2 is None:
         x_part.fill(0)
         for u in range(q):     #~2nd line
             x_subpart = eps_l_op_2s_AA12_C34(lm3, Am2Am1, Cm2[:, :, u])
@@ -485,7 +487,7 @@ def calc_x_l(Km1, C, Cm1, rp1, lm2, Am1, A, Ap1, lm1_s, lm1_si, r_s, r_si, VshL)
     for s in range(q):     #~2nd line
         x_subpart.fill(0)
 
-        if not lm2 is None:
+        if not lm2 is None and not Cm1 is None:
             x_subpart = eps_l_noop_inplace(lm2, Am1, Cm1[:, s], x_subpart)
         
         if not Km1 is None:
-- 
2.43.0


From 94c7e085821fb63c62d3acbf94aa2cc668b718e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 016/100] fix: two-site projections could not be calculated
 when Hamiltonian terms are absent

---
 evoMPS/tdvp_common.py | 4 ++--
 evoMPS/tdvp_gen.py    | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 1defc97..debc23a 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -570,10 +570,10 @@ def calc_BB_Y_2s_ham_3s(A_m1, A_p2, C, C_m1, Vlh, Vrh_p1, l_m2, r_p2, l_s_m1, l_
         liVl[s] = l_si_m1.dot(Vl[s])
 
     Y = sp.zeros((Vlh.shape[1], Vrh_p1.shape[2]), dtype=Vrh_p1.dtype)
-    if not A_p2 is None:
+    if not A_p2 is None and not C is None:
         for s in range(C.shape[0]):
             Y += Vlh[s].dot(l_s_m1.dot(eps_r_op_2s_C12(r_p2, C[s], Vrri_p1, A_p2)))
-    if not A_m1 is None:
+    if not A_m1 is None and not C_m1 is None:
         for u in range(C_m1.shape[2]):
             Y += eps_l_op_2s_A1_A2_C34(l_m2, A_m1, liVl, C_m1[:, :, u]).dot(r_s_p1.dot(Vrh_p1[u]))
 
diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 66f5c86..8e6aea3 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -616,6 +616,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         for n in range(1, self.N):
             if (not Vrh[n + 1] is None and not Vlh[n] is None):
                 if self.ham_sites == 2:
+                    if self.C[n] is None:
+                        continue
                     Y[n], etaBB_sq[n] = tm.calc_BB_Y_2s(self.C[n], Vlh[n], 
                                            Vrh[n + 1], l_s[n - 1], r_s[n + 1])
                 else:
-- 
2.43.0


From 7a5a2231f7909b98896094878a54a3e2f11dda14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 017/100] fix: left-gauge TDVP with three-site terms used the
 wrong site dimension (inhomogeneous chains)

---
 evoMPS/tdvp_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index debc23a..bf4f6fe 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -520,7 +520,7 @@ def calc_x_l_3s(Km1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, AAm2, Am1, A, Ap1, AAp1, l
         lVL = np.array([lm1_si.dot(VL[s]) for s in range(q)])
         Am1lVL = calc_AA(Am1, lVL)
         Cm1_t = Cm1.transpose((2,0,1,3,4)).copy()
-        part = np.array([eps_l_op_2s_AA12_C34(lm2, Am1lVL, Cm1_t[s]) for s in range(q)])
+        part = np.array([eps_l_op_2s_AA12_C34(lm2, Am1lVL, Cm1_t[s]) for s in range(Ap1.shape[0])])
         x += mm.mmul(eps_r_noop(rp1, part, Ap1), r_si)
 
     if Cm2 is not None:
-- 
2.43.0


From 5dc20cab8ff3e16e199eff9197f5b001d60f99e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 018/100] fix: energies could not be calculated after changing
 from left to right gauge

---
 evoMPS/tdvp_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 8e6aea3..70d9949 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -411,7 +411,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
 
                 self.h_expect[n] = ex
             else:
-                self.K[n].fill(0)
+                self.K[n] = sp.zeros((self.D[n - 1], self.D[n - 1]), dtype=self.typ, order=self.odr)
                 
         if n_low == 1:
             self.H_expect = sp.asscalar(self.K[1])
-- 
2.43.0


From e7774a08cc61581ddca9e590246ce32c4a747d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 019/100] fix: calc_C failed when an absent Hamiltonian term is
 replaced by a function

---
 evoMPS/tdvp_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 70d9949..ab6df8f 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -364,7 +364,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             if callable(self.ham):
                 ham_n = lambda *args: self.ham(n, *args)
                 ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
-                ham_n = sp.fromfunction(ham_n, tuple(self.C[n].shape[:-2] * 2))
+                ham_n = sp.fromfunction(ham_n, tuple(self.q[n:n + self.ham_sites]) * 2)
             else:
                 ham_n = self.ham[n]
             
-- 
2.43.0


From 9122d4d3d0e48fb7af6c789db75bb29f869415a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 020/100] fix: gexpmv returned wrong results for complex times

---
 evoMPS/sexpmv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index ed4f7d5..a8f7dee 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -63,7 +63,8 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       eps = sp.finfo(A.dtype).eps
       rndoff = eps*anorm
 
-      sgn = sp.sign(t)
+      #t may be complex: step along the ray from 0 to t
+      sgn = t / t_out if t_out != 0 else 1.0
 
       if w is None: #allow supplying a starting vector
             w = v.copy()
-- 
2.43.0


From 2d26660d08a91b732e91f8930a947722cbf15215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 021/100] fix: gexpmv dropped the imaginary part of the vector
 for real matrices, and failed for integer ones

---
 evoMPS/sexpmv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index a8f7dee..c74e385 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -60,7 +60,9 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       t_now    = 0.0
       t_new    = 0.0
       
-      eps = sp.finfo(A.dtype).eps
+      #The Krylov vectors are complex if either the matrix or the vector is
+      dtype = sp.promote_types(sp.promote_types(A.dtype, v.dtype), float)
+      eps = sp.finfo(dtype).eps
       rndoff = eps*anorm
 
       #t may be complex: step along the ray from 0 to t
@@ -84,7 +86,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       p1 = 10.0**(round( log10( t_new )-SQR1 )-1)
       t_new = trunc( t_new/p1 + 0.55 ) * p1
 
-      vs = sp.zeros((m+2,n), A.dtype)  # to hold the Krylov subspace
+      vs = sp.zeros((m+2,n), dtype)  # to hold the Krylov subspace
 
       axpy = la.blas.get_blas_funcs('axpy', arrays=(vs[0, :], vs[0, :]))
 
@@ -98,7 +100,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
             vs.fill(0)
             vs[0,:] = w / beta
 
-            H = sp.zeros((mh,mh), A.dtype)
+            H = sp.zeros((mh,mh), dtype)
 
             #Arnoldi loop ...
             for j in range(1,m+1):
-- 
2.43.0


From 48546ebad44137e527ba98305867651aeb228d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 022/100] fix: gexpmv failed with its default tolerance (zero)

---
 evoMPS/sexpmv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index c74e385..58e115c 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -20,6 +20,10 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       delta = 1.2
       gamma = 0.9
 
+      #As in EXPOKIT, fall back to sqrt(eps) if the tolerance is (nearly) zero
+      if tol <= sp.finfo(float).eps:
+            tol = sqrt(sp.finfo(float).eps)
+
       if break_tol is None:
             #break_tol = tol  
             break_tol = anorm*tol
-- 
2.43.0


From fcf1a6855f7092be360ba8bd7072623a282fa601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 023/100] fix: gexpmv failed for one-dimensional spaces, for m
 = 1, and for zero or tiny matrices, vectors and times

---
 evoMPS/sexpmv.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index 58e115c..0ac2201 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -36,12 +36,12 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
             matvec = lambda v: sp.dot(A,v)
 
       if m is None:
-            m = min(20, n-1)
+            m = max(1, min(20, n-1))
       
       if len(A.shape) != 2 or A.shape[0] != A.shape[1]:
             raise ValueError("A is not a square matrix")
       
-      if m >= n or m <= 0:
+      if (m >= n and n > 1) or m <= 0:
             raise ValueError("m is invalid")
 
       k1 = 2
@@ -81,6 +81,9 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       vnorm = beta
       hump = beta 
 
+      if t_out == 0 or anorm == 0 or beta == 0: #nothing to do
+            return w, True, nstep, False, mbrkdwn, (x_error, s_error)
+
       #obtain the very first stepsize ...
 
       SQR1 = sqrt( 0.1 )
@@ -168,7 +171,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
                               xm = 1.0/m
                         else:
                               err_loc = p1
-                              xm = 1.0/(m-1)
+                              xm = 1.0/max(m-1, 1)
 
                   #reject the step-size if the error is not acceptable ...
 
@@ -203,6 +206,8 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
 
             #suggested value for the next stepsize ...
 
+            err_loc = max( err_loc, sp.finfo(float).tiny )
+
             t_new = gamma * t_step * (t_step*tol/err_loc)**xm
             p1 = 10.0**(round( log10( t_new )-SQR1 )-1)
             t_new = trunc( t_new/p1 + 0.55 ) * p1
-- 
2.43.0


From 3c72cc72400fde4a92b862fb9ecaed32aec9e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 024/100] fix: gexpmv never converged in very small spaces, as
 the full Krylov space was not allowed

---
 evoMPS/sexpmv.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index 0ac2201..97c77be 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -36,12 +36,12 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
             matvec = lambda v: sp.dot(A,v)
 
       if m is None:
-            m = max(1, min(20, n-1))
+            m = min(20, n)
       
       if len(A.shape) != 2 or A.shape[0] != A.shape[1]:
             raise ValueError("A is not a square matrix")
       
-      if (m >= n and n > 1) or m <= 0:
+      if m > n or m <= 0:
             raise ValueError("m is invalid")
 
       k1 = 2
@@ -64,14 +64,15 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       t_now    = 0.0
       t_new    = 0.0
       
-      #The Krylov vectors are complex if either the matrix or the vector is
+      #t may be complex: step along the ray from 0 to t
+      sgn = t / t_out if t_out != 0 else 1.0
+
+      #The Krylov vectors are complex if the matrix, the vector or the time is
       dtype = sp.promote_types(sp.promote_types(A.dtype, v.dtype), float)
+      dtype = sp.promote_types(dtype, sp.asarray(sgn).dtype)
       eps = sp.finfo(dtype).eps
       rndoff = eps*anorm
 
-      #t may be complex: step along the ray from 0 to t
-      sgn = t / t_out if t_out != 0 else 1.0
-
       if w is None: #allow supplying a starting vector
             w = v.copy()
       else:
@@ -123,7 +124,8 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
 
                   hj1j = la.norm( vs[j,:] )
                   #if the orthogonalized Krylov vector is zero, stop!
-                  if hj1j <= break_tol:
+                  #(always the case once the Krylov vectors span the entire space)
+                  if hj1j <= break_tol or j == n:
                         if verbose:
                               print('breakdown: mbrkdwn =',j,' h =',hj1j)
                         k1 = 0
-- 
2.43.0


From ba7a6c96b511007fb71bdf754533c7b800bc3d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 025/100] fix: take_step_split failed for bond dimension one,
 and could not converge for very small tensors

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index ab6df8f..5d378a1 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1253,7 +1253,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             #An = zexpmv(lop, An_old, dtau/2., norm_est=norm_est, m=ncv, tol=tol,
             #            A_is_Herm=op_is_herm)
             #FIXME: Currently we don't take advantage of Hermiticity.
-            ncv_An = min(ncv, len(An_old)-1)
+            ncv_An = min(ncv, len(An_old))
             An, conv, nstep, brkdown, mb = gexpmv(lop, An_old, dtau/2., norm_est, m=ncv_An, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for An did not converge in %u steps for site %u.", nstep, n)
@@ -1269,7 +1269,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             Gold = G.ravel()
             #G = zexpmv(lop2, Gold, -dtau/2., norm_est=norm_est, m=ncv, tol=tol,
             #           A_is_Herm=op_is_herm)
-            ncv_G = min(ncv, len(Gold)-1)
+            ncv_G = min(ncv, len(Gold))
             G, conv, nstep, brkdown, mb = gexpmv(lop2, Gold, -dtau/2., norm_est, m=ncv_G, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for G did not converge in %u steps for site %u.", nstep, n)
-- 
2.43.0


From 8b9f8659481ab415d02ef08dabdfc75a99d451c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 026/100] fix: take_step_split ignored the real part of complex
 time steps

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 5d378a1..25619bf 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1210,8 +1210,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
     
             if sp.iscomplex(dtau):
                 op_is_herm = False
-                fac = 1.j
-                dtau = sp.imag(dtau)
+                fac = dtau / abs(dtau)
+                dtau = abs(dtau)
             else:
                 if ham_is_Herm:
                     op_is_herm = True
-- 
2.43.0


From 62de420bc599074d5f39e1748fce0a99f47d21ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 027/100] fix: take_step_split and vari_opt_ss_sweep failed
 without a local Hamiltonian (MPO only)

---
 evoMPS/tdvp_gen.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 25619bf..ca700f2 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1290,7 +1290,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             self.A[n] /= sp.sqrt(norm)
         
         def update_Heff_left(n):
-            if self.ham_sites == 2 and n > 1:
+            if not use_local_ham:
+                pass
+            elif self.ham_sites == 2 and n > 1:
                 self.AA[n - 1] = tm.calc_AA(self.A[n - 1], self.A[n])
                 self.C[n - 1] = tm.calc_C_mat_op_AA(self.ham[n - 1], self.AA[n - 1])
                 KL[n], ex = tm.calc_K_l(KL[n - 1], self.C[n - 1], self.l[n - 2], 
@@ -1310,18 +1312,18 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                 HML[n] = self.calc_MPO_l(HMA[n], n, HML[n - 1])
                 
         def update_Heff_right(n):
-            if self.ham_sites == 2 and n < self.N:
+            if use_local_ham and self.ham_sites == 2 and n < self.N:
                 self.AA[n] = tm.calc_AA(self.A[n], self.A[n + 1])                    
                 self.C[n] = tm.calc_C_mat_op_AA(self.ham[n], self.AA[n])
             
-            if self.ham_sites == 3:
+            if use_local_ham and self.ham_sites == 3:
                 if n < self.N:
                     self.AA[n] = tm.calc_AA(self.A[n], self.A[n + 1])
                 if n < self.N - 1:
                     self.AAA[n] = tm.calc_AAA_AA(self.AA[n], self.A[n + 2])
                     self.C[n] = tm.calc_C_3s_mat_op_AAA(self.ham[n], self.AAA[n])
             
-            if n < self.N:
+            if use_local_ham and n < self.N:
                 self.calc_K(n_low=n, n_high=n)
                 
             if not HMPO is None:
-- 
2.43.0


From 874a248769bcb833b2c1ab6a0ab0d577210c6d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 028/100] fix: split-step and single-site DMRG sweeps failed
 for Hamiltonians with absent terms or given as functions

---
 evoMPS/tdvp_gen.py | 52 +++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index ca700f2..43b14ff 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -25,12 +25,13 @@ log = logging.getLogger(__name__)
 class Vari_Opt_Single_Site_Op:
     def __init__(self, tdvp, n, KLnm1, tau=1., HML=None, HMR=None, HMn=None,
                  use_local_ham=True,
-                 sanity_checks=False):
+                 sanity_checks=False, ham=None):
         """
         """
         self.D = tdvp.D
         self.q = tdvp.q
         self.tdvp = tdvp
+        self.ham = tdvp.ham if ham is None else ham
         self.n = n
         self.KLnm1 = KLnm1
         
@@ -62,20 +63,20 @@ class Vari_Opt_Single_Site_Op:
         if t.ham_sites == 2:
             if n > 1:
                 AAnm1 = tm.calc_AA(t.A[n - 1], An)
-                Cnm1 = tm.calc_C_mat_op_AA(t.ham[n - 1], AAnm1)
+                Cnm1 = tm.calc_C_mat_op_AA(self.ham[n - 1], AAnm1)
                 Cnm1 = sp.transpose(Cnm1, axes=(1, 0, 2, 3)).copy()
                 for s in range(t.q[n]):
                     res[s] += tm.eps_l_noop(t.l[n - 2], t.A[n - 1], Cnm1[s, :])
             if n < t.N:
                 AAn = tm.calc_AA(An, t.A[n + 1])
-                Cn = tm.calc_C_mat_op_AA(t.ham[n], AAn)
+                Cn = tm.calc_C_mat_op_AA(self.ham[n], AAn)
                 for s in range(t.q[n]):
                     res[s] += tm.eps_r_noop(t.r[n + 1], Cn[s, :], t.A[n + 1])
                 
         if t.ham_sites == 3:
             if n > 2:
                 AAAnm2 = tm.calc_AAA_AA(t.AA[n - 2], An)
-                Cnm2 = tm.calc_C_3s_mat_op_AAA(t.ham[n - 2], AAAnm2)
+                Cnm2 = tm.calc_C_3s_mat_op_AAA(self.ham[n - 2], AAAnm2)
                 Cnm2 = sp.transpose(Cnm2, axes=(2, 0, 1, 3, 4)).copy()
                 for s in range(t.q[n]):
                     res[s] += tm.eps_l_op_2s_AA12_C34(t.l[n - 3], t.AA[n - 2], Cnm2[s, :, :])
@@ -83,7 +84,7 @@ class Vari_Opt_Single_Site_Op:
             if n > 1 and n < t.N:
                 AAnm1 = tm.calc_AA(t.A[n - 1], An)  
                 AAAnm1 = tm.calc_AAA_AA(AAnm1, t.A[n + 1])
-                Cnm1 = tm.calc_C_3s_mat_op_AAA(t.ham[n - 1], AAAnm1)
+                Cnm1 = tm.calc_C_3s_mat_op_AAA(self.ham[n - 1], AAAnm1)
                 for s in range(t.q[n]):
                     for u in range(t.q[n - 1]):
                         res[s] += t.A[n - 1][u].conj().T.dot(t.l[n - 2].dot(
@@ -92,7 +93,7 @@ class Vari_Opt_Single_Site_Op:
             if n < t.N - 1:
                 AAn = tm.calc_AA(An, t.A[n + 1])
                 AAAn = tm.calc_AAA_AA(AAn, t.A[n + 2])
-                Cn = tm.calc_C_3s_mat_op_AAA(t.ham[n], AAAn)
+                Cn = tm.calc_C_3s_mat_op_AAA(self.ham[n], AAAn)
                 for s in range(t.q[n]):
                     res[s] += tm.eps_r_op_2s_AA12_C34(t.r[n + 2], Cn[s, :, :], t.AA[n + 1])
             
@@ -137,12 +138,13 @@ class Vari_Opt_Single_Site_Op:
         
 class Vari_Opt_SC_op:
     def __init__(self, tdvp, n, KLn, tau=1, HML=None, HMR=None,
-                 use_local_ham=True, sanity_checks=False):
+                 use_local_ham=True, sanity_checks=False, ham=None):
         """
         """
         self.D = tdvp.D
         self.q = tdvp.q
         self.tdvp = tdvp
+        self.ham = tdvp.ham if ham is None else ham
         self.n = n
         self.KLn = KLn
         
@@ -179,7 +181,7 @@ class Vari_Opt_SC_op:
         
         if t.ham_sites == 2:
             AAn = tm.calc_AA(t.A[n], Ap1)
-            Cn = tm.calc_C_mat_op_AA(t.ham[n], AAn)
+            Cn = tm.calc_C_mat_op_AA(self.ham[n], AAn)
             for s in range(t.q[n]):
                 sres = tm.eps_r_noop(t.r[n + 1], Cn[s, :], t.A[n + 1])
                 res += t.A[n][s].conj().T.dot(t.l[n - 1].dot(sres))
@@ -187,13 +189,13 @@ class Vari_Opt_SC_op:
             if n < t.N - 1:
                 AAn = tm.calc_AA(t.A[n], Ap1)
                 AAAn = tm.calc_AAA_AA(AAn, t.A[n + 2])
-                Cn = tm.calc_C_3s_mat_op_AAA(t.ham[n], AAAn)
+                Cn = tm.calc_C_3s_mat_op_AAA(self.ham[n], AAAn)
                 for s in range(t.q[n]):
                     res += t.A[n][s].conj().T.dot(
                              tm.eps_r_op_2s_AA12_C34(t.r[n + 2], Cn[s, :, :], t.AA[n + 1]))
             if n > 1:
                 AAAm1 = tm.calc_AAA_AA(t.AA[n - 1], Ap1)
-                Cm1 = tm.calc_C_3s_mat_op_AAA(t.ham[n - 1], AAAm1)
+                Cm1 = tm.calc_C_3s_mat_op_AAA(self.ham[n - 1], AAAm1)
                 Cm1 = sp.transpose(Cm1, axes=(2, 0, 1, 3, 4)).copy()
                 for s in range(t.q[n + 1]):
                     res += tm.eps_l_op_2s_AA12_C34(t.l[n - 2], t.AA[n - 1], Cm1[s, :, :]).dot(t.A[n + 1][s].conj().T)
@@ -1223,6 +1225,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         assert self.ham_sites == 2 or self.ham_sites == 3
         import sys
         
+        ham = self._ham_arrays() if use_local_ham else None
+        
         KL = [None] * (self.N + 1)
         KL[1] = sp.zeros((self.D[1], self.D[1]), dtype=self.typ)
         KL[2] = sp.zeros((self.D[2], self.D[2]), dtype=self.typ)
@@ -1242,7 +1246,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             lop = Vari_Opt_Single_Site_Op(self, n, KL[n - 1], tau=fac, 
                                           HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                           use_local_ham=use_local_ham,
-                                          sanity_checks=self.sanity_checks)
+                                          sanity_checks=self.sanity_checks, ham=ham)
             An_old = self.A[n].ravel()
 
             if calc_norm_est: #simple attempt at approximating the norm
@@ -1265,7 +1269,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             lop2 = Vari_Opt_SC_op(self, n, KL[n], tau=fac,
                                   HML=HML[n], HMR=HMR[n],
                                   use_local_ham=use_local_ham,
-                                  sanity_checks=self.sanity_checks)
+                                  sanity_checks=self.sanity_checks, ham=ham)
             Gold = G.ravel()
             #G = zexpmv(lop2, Gold, -dtau/2., norm_est=norm_est, m=ncv, tol=tol,
             #           A_is_Herm=op_is_herm)
@@ -1281,7 +1285,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             lop = Vari_Opt_Single_Site_Op(self, n, KL[n - 1], 
                                           HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                           use_local_ham=use_local_ham,
-                                          sanity_checks=self.sanity_checks)
+                                          sanity_checks=self.sanity_checks, ham=ham)
             evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
                                  v0=self.A[n].ravel(), ncv=ncv, tol=tol)
             
@@ -1294,7 +1298,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                 pass
             elif self.ham_sites == 2 and n > 1:
                 self.AA[n - 1] = tm.calc_AA(self.A[n - 1], self.A[n])
-                self.C[n - 1] = tm.calc_C_mat_op_AA(self.ham[n - 1], self.AA[n - 1])
+                self.C[n - 1] = tm.calc_C_mat_op_AA(ham[n - 1], self.AA[n - 1])
                 KL[n], ex = tm.calc_K_l(KL[n - 1], self.C[n - 1], self.l[n - 2], 
                                         self.r[n], self.A[n], self.AA[n - 1])
             elif self.ham_sites == 3:
@@ -1303,7 +1307,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.AA[n - 1] = tm.calc_AA(self.A[n - 1], self.A[n])
                 if n > 2:
                     self.AAA[n - 2] = tm.calc_AAA_AA(self.AA[n - 2], self.A[n])
-                    self.C[n - 2] = tm.calc_C_3s_mat_op_AAA(self.ham[n - 2], self.AAA[n - 2])
+                    self.C[n - 2] = tm.calc_C_3s_mat_op_AAA(ham[n - 2], self.AAA[n - 2])
                     KL[n], ex = tm.calc_K_3s_l(KL[n - 1], self.C[n - 2], self.l[n - 3], 
                                                self.r[n], self.A[n], self.AAA[n - 2])
                                         
@@ -1314,14 +1318,14 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         def update_Heff_right(n):
             if use_local_ham and self.ham_sites == 2 and n < self.N:
                 self.AA[n] = tm.calc_AA(self.A[n], self.A[n + 1])                    
-                self.C[n] = tm.calc_C_mat_op_AA(self.ham[n], self.AA[n])
+                self.C[n] = tm.calc_C_mat_op_AA(ham[n], self.AA[n])
             
             if use_local_ham and self.ham_sites == 3:
                 if n < self.N:
                     self.AA[n] = tm.calc_AA(self.A[n], self.A[n + 1])
                 if n < self.N - 1:
                     self.AAA[n] = tm.calc_AAA_AA(self.AA[n], self.A[n + 2])
-                    self.C[n] = tm.calc_C_3s_mat_op_AAA(self.ham[n], self.AAA[n])
+                    self.C[n] = tm.calc_C_3s_mat_op_AAA(ham[n], self.AAA[n])
             
             if use_local_ham and n < self.N:
                 self.calc_K(n_low=n, n_high=n)
@@ -1396,6 +1400,20 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             self.H_expect += HMR[0][0, 0]
 
         
+    def _ham_arrays(self):
+        """Returns all local Hamiltonian terms as arrays (zero for absent terms)."""
+        ham = [None] * (self.N + 1)
+        for n in range(1, self.N - self.ham_sites + 2):
+            shp = tuple(self.q[n:n + self.ham_sites]) * 2
+            if callable(self.ham):
+                ham_n = sp.vectorize(lambda *args: self.ham(n, *args), otypes=[sp.complex128])
+                ham[n] = sp.fromfunction(ham_n, shp)
+            elif self.ham[n] is None:
+                ham[n] = sp.zeros(shp, dtype=self.typ)
+            else:
+                ham[n] = self.ham[n]
+        return ham
+        
     def _is_ham_term(self, op, n):
         return not (op is None or self.ham is None or callable(self.ham)) and op is self.ham[n]
 
-- 
2.43.0


From 18f771cfac76c3a46396fb842762d6f440574c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 029/100] fix: vari_opt_ss_sweep ignored its solver parameters
 and failed for small tensors

---
 evoMPS/tdvp_gen.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 43b14ff..e521950 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1178,7 +1178,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         Combined with imaginary time evolution, this can dramatically improve
         convergence speed.
         """
-        self.take_step_split(1., HMPO=HMPO, use_local_ham=use_local_ham, DMRG=True)
+        self.take_step_split(1., HMPO=HMPO, use_local_ham=use_local_ham, DMRG=True,
+                             ncv=ncv, tol=tol)
             
                 
     def take_step_split(self, dtau, ham_is_Herm=True, HMPO=None, 
@@ -1286,8 +1287,13 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                                           HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                           use_local_ham=use_local_ham,
                                           sanity_checks=self.sanity_checks, ham=ham)
-            evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                                 v0=self.A[n].ravel(), ncv=ncv, tol=tol)
+            ncv_An = None if ncv is None else min(max(ncv, 3), self.A[n].size)
+            if self.A[n].size <= 3: #too small for ARPACK
+                lop = sp.array([lop.matvec(v) for v in sp.eye(self.A[n].size, dtype=self.typ)]).T
+                evs, eVs = la.eigh(lop)
+            else:
+                evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
+                                     v0=self.A[n].ravel(), ncv=ncv_An, tol=tol)
             
             self.A[n] = eVs[:, 0].reshape((self.q[n], self.D[n - 1], self.D[n]))
             norm = m.adot(self.A[n], self.A[n])
-- 
2.43.0


From 6ee4bbd29b872851ba453c91d2ea42c7b957f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 030/100] fix: evolve_split failed for bond dimension one, and
 could not converge for very small tensors

---
 evoMPS/split_step.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 7497617..f175922 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -507,7 +507,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         #An = zexpmv(lop, An_old, dtau/2., norm_est=norm_est, m=ncv, tol=tol,
         #            A_is_Herm=op_is_herm)
         #FIXME: Currently we don't take advantage of Hermiticity.
-        ncv_An = min(ncv, len(An_old)-1)
+        ncv_An = min(ncv, len(An_old))
         An, conv, nstep, brkdown, mb, err = gexpmv(
             lop, An_old, step, norm_est, m=ncv_An, tol=tol, mxstep=expm_max_steps)
         expm_info = {
@@ -543,7 +543,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
                 norm_est = max(norm_est, la.norm(nres, ord=sp.inf))
                 #print("norm_est=", norm_est)
 
-            ncv_AAn = min(ncv, len(AAn_old)-1)
+            ncv_AAn = min(ncv, len(AAn_old))
             AAn, conv, nstep, brkdown, mb, err = gexpmv(
                 lop, AAn_old, step, norm_est, m=ncv_AAn, tol=tol, mxstep=expm_max_steps)
             expm_info = {
@@ -585,7 +585,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             return G, {}
         #G = zexpmv(lop2, Gold, -dtau/2., norm_est=norm_est, m=ncv, tol=tol,
         #           A_is_Herm=op_is_herm)
-        ncv_G = min(ncv, len(Gold)-1)
+        ncv_G = min(ncv, len(Gold))
 
         G, conv, nstep, brkdown, mb, err = gexpmv(
             lop, Gold, step, norm_est, m=ncv_G, tol=tol, mxstep=expm_max_steps)
-- 
2.43.0


From 6f54de63c53d0ab3a57671549619144810d63b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 031/100] fix: evolve_split ignored the real part of complex
 time steps

---
 evoMPS/split_step.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index f175922..9c4483b 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -470,8 +470,8 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
 
         if sp.iscomplex(dtau):
             op_is_herm = False
-            fac = 1.j
-            dtau = sp.imag(dtau)
+            fac = dtau / abs(dtau)
+            dtau = abs(dtau)
         else:
             if ham_is_Herm:
                 op_is_herm = True
-- 
2.43.0


From 9e41f082d5a573d98b27dcbcb6446f2a3368fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 032/100] fix: two-site split steps failed with their default
 truncation limits

---
 evoMPS/split_step.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 9c4483b..cc3985b 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -483,6 +483,11 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
     # FIXME: Check form manually
     assert ham_sites == 2 or ham_sites == 3
     import sys
+
+    if D_max is None:
+        D_max = sp.inf
+    if min_schmidt is None:
+        min_schmidt = 0
             
     def evolve_A(n, step, norm_est, calc_norm_est=False):
         AAnm2 = None
@@ -660,7 +665,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             sp.transpose(AA, [0,2,1,3]),
             [q1 * D0, q2 * D2])
         u, s, vh = la.svd(AA_mat)
-        D1 = min(D_max, len(s))
+        D1 = int(min(D_max, len(s)))
         for i in range(D1):
             if s[i] < min_schmidt:
                 D1 = i
-- 
2.43.0


From e60219d6d7fab3daf26cb4c325c85363eae430c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 033/100] fix: evolve_split failed for Hamiltonians given as
 MPO

---
 evoMPS/split_step.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index cc3985b..fd2fdee 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -681,7 +681,9 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
     
     def update_Heff_left(n):
         Anm1 = mps.get_A(n - 1)
-        if ham_sites == 2 and Anm1 is not None:
+        if not use_local_ham:
+            pass
+        elif ham_sites == 2 and Anm1 is not None:
             AAnm1 = tm.calc_AA(Anm1, mps.A[n])
             Cnm1 = tm.calc_C_mat_op_AA(ham[n - 1], AAnm1)
             KLnm1 = KL[n - 1]
@@ -704,11 +706,11 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
                                     
         if not HMPO is None:
             HMA[n] = tm.apply_MPO_local(HM[n], mps.A[n])
-            HML[n] = mps.calc_MPO_l(HMA[n], n, HML[n - 1])
+            HML[n] = tm.eps_l_noop(HML[n - 1], HMA[n], mps.A[n])
             
     def update_Heff_right(n):
         Anp1 = mps.get_A(n + 1)
-        if ham_sites == 2 and Anp1 is not None:
+        if use_local_ham and ham_sites == 2 and Anp1 is not None:
             AAn = tm.calc_AA(mps.A[n], Anp1)                    
             Cn = tm.calc_C_mat_op_AA(ham[n], AAn)
             KRnp1 = KR[n + 1]
@@ -718,7 +720,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             KR[n], _ = tm.calc_K(KRnp1, Cn, None, 
                 rnp1, mps.A[n], AAn)
         
-        if ham_sites == 3:
+        if use_local_ham and ham_sites == 3:
             Anp2 = mps.get_A(n + 2)
             if Anp2 is not None:
                 AAAn = tm.calc_AAA(mps.A[n], Anp1, Anp2)
@@ -732,7 +734,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             
         if not HMPO is None:
             HMA[n] = tm.apply_MPO_local(HM[n], mps.A[n])
-            HMR[n - 1] = mps.calc_MPO_rm1(HMA[n], n, HMR[n])
+            HMR[n - 1] = tm.eps_r_noop(HMR[n], HMA[n], mps.A[n])
 
     def right_move_1site(n, norm_est):
         if debug:
@@ -843,8 +845,6 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
 
     KR = [None] * (mps.N + 2)
     KR[mps.N + 1] = KR_bulk
-    for n in reversed(range(1, mps.N + 1)):
-        update_Heff_right(n)
 
     HMA = [None] * (mps.N + 1)
     HML = [sp.eye(1, dtype=mps.typ)] + [None] * mps.N
@@ -853,9 +853,9 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         HM = [None] * (mps.N + 1)
     else:
         HM = HMPO
-        for n in range(mps.N, 0, -1):
-            HMA[n] = tm.apply_MPO_local(HM[n], mps.A[n])
-            HMR[n - 1] = mps.calc_MPO_rm1(HMA[n], n, HMR[n])
+
+    for n in reversed(range(1, mps.N + 1)):
+        update_Heff_right(n)
 
     def can_increase_D(n):
         can = (
-- 
2.43.0


From e82a7579c695c58ffd6fe5c6c554c95cc8dba6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 034/100] fix: two-site split steps that may switch to one site
 evolved an end site twice, or failed

---
 evoMPS/split_step.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index fd2fdee..4383a5e 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -871,12 +871,12 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             if print_progress:
                 sys.stdout.write('\r{0}'.format("Sweep LR:" + str(n) + '        '))
                 sys.stdout.flush()
-            if two_site and (can_increase_D(n) or not switch_to_1site):
+            if two_site and n < mps.N and (can_increase_D(n) or not switch_to_1site):
                 norm_est, iexpm_lr[2*n-1], iexpm_lr[2*n], terr_lr[n] = right_move_2site(n, norm_est)
                 if n == mps.N - 1:
                     # To avoid evolving the last site twice, in case N-1 was two-step.
                     norm_est, iexpm_lr[2*n+1], iexpm_lr[2*n+2], terr_lr[n+1] = right_move_2site(n+1, norm_est)
-                    continue
+                    break
             else:
                 norm_est, iexpm_lr[2*n-1], iexpm_lr[2*n] = right_move_1site(n, norm_est)
                 terr_lr[n] = sp.NaN
@@ -887,12 +887,12 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             if print_progress:
                 sys.stdout.write('\r{0}'.format("Sweep RL:" + str(n) + '        '))
                 sys.stdout.flush()
-            if two_site and (can_increase_D(n-1) or not switch_to_1site):
+            if two_site and n > 1 and (can_increase_D(n-1) or not switch_to_1site):
                 norm_est, iexpm_rl[2*n-1], iexpm_rl[2*n], terr_rl[n] = left_move_2site(n-1, norm_est)
                 if n == 2:
                     # To avoid evolving the first site twice, in case 2 was two-step.
                     norm_est, iexpm_rl[2*n-3], iexpm_rl[2*n-2], terr_rl[n-1] = left_move_2site(n-2, norm_est)
-                    continue
+                    break
             else:
                 norm_est, iexpm_rl[2*n-1], iexpm_rl[2*n] = left_move_1site(n, norm_est)
                 terr_rl[n] = sp.NaN
-- 
2.43.0


From 8a8f3015c63f48796d6017a19d1870bf6d84b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 035/100] fix: DMRG with evolve_split failed for small tensors
 and for non-Hermitian Hamiltonians

---
 evoMPS/split_step.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 4383a5e..b4eea62 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -606,6 +606,18 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         G /= sp.sqrt(mm.adot(G, G))
         return G, expm_info
         
+    def lowest_eigs(lop, v0):
+        ncv_ = None if ncv is None else min(max(ncv, 3), len(v0))
+        if len(v0) <= 3: #too small for ARPACK
+            op = sp.array([lop.matvec(v) for v in sp.eye(len(v0), dtype=mps.typ)]).T
+            if ham_is_Herm:
+                return la.eigh(op)[1]
+            evs, eVs = la.eig(op)
+            return eVs[:, [evs.real.argmin()]]
+        if ham_is_Herm:
+            return las.eigsh(lop, k=1, which='SA', sigma=None, v0=v0, ncv=ncv_, tol=tol)[1]
+        return las.eigs(lop, k=1, which='SR', sigma=None, v0=v0, ncv=ncv_, tol=tol)[1]
+
     def opt_A(n):
         AAnm2 = None
         AAnp1 = None
@@ -613,12 +625,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
                                       HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                       use_local_ham=use_local_ham,
                                       sanity_checks=mps.sanity_checks)
-        if ham_is_Herm:
-            evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                              v0=mps.A[n].ravel(), ncv=ncv, tol=tol)
-        else:
-            evs, eVs = las.eigs(lop, k=1, which='SA', sigma=None, 
-                              v0=mps.A[n].ravel(), ncv=ncv, tol=tol)
+        eVs = lowest_eigs(lop, mps.A[n].ravel())
         
         mps.A[n] = eVs[:, 0].reshape((mps.q[n], mps.D[n - 1], mps.D[n]))
         norm = mm.adot(mps.A[n], mps.A[n])
@@ -635,12 +642,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         #AAn = AAn_old.reshape((mps.q[n], mps.q[n+1], mps.D[n - 1], mps.D[n + 1]))
         #print(n, sp.inner(AAn_old.conj(), lop.matvec(AAn_old)), "skipped!")
 
-        if ham_is_Herm:
-            evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                                v0=AAn_old.ravel(), ncv=ncv, tol=tol)
-        else:
-            evs, eVs = las.eigs(lop, k=1, which='SA', sigma=None, 
-                                v0=AAn_old.ravel(), ncv=ncv, tol=tol)
+        eVs = lowest_eigs(lop, AAn_old)
 
         AAn = eVs[:, 0].reshape((mps.q[n], mps.q[n+1], mps.D[n - 1], mps.D[n + 1]))
 
-- 
2.43.0


From 6993a446ef23f72e4240f4969d2d065fc843a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 036/100] fix: two-site split steps with three-site Hamiltonian
 terms used a transposed environment

---
 evoMPS/split_step.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index b4eea62..dadf953 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -264,7 +264,7 @@ class Vari_Opt_Two_Site_Op:
                         for s2_in in range(m.q[n+1]):
                             for s2_out in range(m.q[n+1]):
                                 tmp[s1_out, s2_out, s1_in, s2_in] = tm.eps_l_op_1s(
-                                    lnm2, Anm1, Anm1, self.ham[n - 1][:,s1_out,s2_out,:,s1_in,s2_in])
+                                    lnm2, Anm1, Anm1, self.ham[n - 1][:,s1_out,s2_out,:,s1_in,s2_in]).T.conj()
                 res += sp.tensordot(tmp, AAn, axes=((2,3,5),(0,1,2))) #[s1_out_tmp,s2_out_tmp,D1_tmp,D2_AAn]
 
             Anp2 = m.get_A(n + 2)
-- 
2.43.0


From 8e9dfd2282a1a7ce2171ed1aaf1c194842ca2f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 037/100] fix: two-site split step: environment term of
 three-site Hamiltonians right of the pair transposed

---
 evoMPS/split_step.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index dadf953..b4b4631 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -289,7 +289,7 @@ class Vari_Opt_Two_Site_Op:
                 for s_in in range(m.q[n+1]):
                     for s_out in range(m.q[n+1]):
                         C = tm.calc_C_mat_op_AA(self.ham[n + 1][s_out,:,:,s_in,:,:], self.AAnp2)
-                        tmp[s_out, s_in] = tm.eps_r_op_2s_AA12_C34(rnp3, self.AAnp2, C)
+                        tmp[s_out, s_in] = tm.eps_r_op_2s_C12_AA34(rnp3, C, self.AAnp2)
 
                 res_sub = sp.tensordot(AAn, tmp, axes=((1,3),(1,2))) #[s1_AAn,D1_AAn,s_out_tmp,D2_tmp]
                 res += sp.transpose(res_sub, (0,2,1,3)) #[s1_AAn,s_out_tmp,D1_AAn,D2_tmp]
-- 
2.43.0


From c7347dcb339648204f90925f8a7d93531a4086e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 038/100] fix: energy line search failed for Hamiltonians given
 as functions or with absent terms

---
 evoMPS/tdvp_gen.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index e521950..64e517c 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1037,13 +1037,11 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.simple_renorm()
                     self.calc_C()
                     
-                    h_exp = 0
-                    if self.ham_sites == 2:
-                        for n in range(1, self.N):
-                            h_exp += self.expect_2s(self.ham[n], n).real
+                    if self.gauge_fixing == 'right':
+                        self.calc_K()
                     else:
-                        for n in range(1, self.N - 1):
-                            h_exp += self.expect_3s(self.ham[n], n).real
+                        self.calc_K_l()
+                    h_exp = self.H_expect.real
                     res = h_exp
                 
                 log.debug((tau, res, h_exp, h_exp - h_expect_0.real))
-- 
2.43.0


From 7509e92b0e0d103a7108d80b98dcf405694dcf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 039/100] fix: line search left the two- and three-site tensors
 of the last trial step behind

---
 evoMPS/tdvp_gen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 64e517c..578ead9 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -989,6 +989,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                          verbose=False, use_tangvec_overlap=False,
                          max_iter=20):
         As0 = cp.deepcopy(self.A)
+        AAs0 = cp.deepcopy(self.AA)
+        AAAs0 = cp.deepcopy(self.AAA)
         Cs0 = cp.deepcopy(self.C)
         Ks0 = cp.deepcopy(self.K)
         h_expect_0 = self.H_expect
@@ -1096,6 +1098,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         self.A = As0
         self.l = ls0
         self.r = rs0
+        self.AA = AAs0
+        self.AAA = AAAs0
         self.C = Cs0
         self.K = Ks0
         self.H_expect = h_expect_0
-- 
2.43.0


From f5f1e8d71bcb9a24e9ff1ab240941436803a78c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 040/100] fix: line search with skipIfLower left the state at
 the trial step and returned no energy

---
 evoMPS/tdvp_gen.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 578ead9..a0ddbcc 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1054,9 +1054,23 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                 
                 return res
         
+        def restore():
+            #Must restore everything needed for take_step
+            self.A = As0
+            self.l = ls0
+            self.r = rs0
+            self.AA = AAs0
+            self.AAA = AAAs0
+            self.C = Cs0
+            self.K = Ks0
+            self.H_expect = h_expect_0
+        
         if skipIfLower:
-            if f(dtau_init) < self.H_expect.real:
-                return dtau_init
+            f(dtau_init)
+            h_min = hs[-1]
+            if h_min < h_expect_0.real:
+                restore()
+                return dtau_init, h_min
         
         brack_init = (dtau_init * 0.9, dtau_init * 1.5)
         
@@ -1094,15 +1108,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                 tau_opt = 0
                 h_min = h_expect_0.real
             
-        #Must restore everything needed for take_step
-        self.A = As0
-        self.l = ls0
-        self.r = rs0
-        self.AA = AAs0
-        self.AAA = AAAs0
-        self.C = Cs0
-        self.K = Ks0
-        self.H_expect = h_expect_0
+        restore()
         
         return tau_opt, h_min
         
-- 
2.43.0


From 2bf39f7576d62f7bb733c5b64046ee943d433dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 041/100] fix: sparse matrix stand-ins could not be converted
 with np.asarray(x, dtype=...)

---
 evoMPS/matmul.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/evoMPS/matmul.py b/evoMPS/matmul.py
index 9c86676..43104f5 100644
--- a/evoMPS/matmul.py
+++ b/evoMPS/matmul.py
@@ -19,8 +19,9 @@ class eyemat(object):
         self.dtype = dtype
         self.data = None
         
-    def __array__(self):
-        return self.toarray()
+    def __array__(self, dtype=None):
+        res = self.toarray()
+        return res if dtype is None else res.astype(dtype)
     
     def toarray(self):
         return sp.eye(self.shape[0], dtype=self.dtype)
@@ -136,8 +137,9 @@ class simple_diag_matrix:
         self.diag = diag
         self.shape = (diag.shape[0], diag.shape[0])
         
-    def __array__(self):
-        return self.toarray()
+    def __array__(self, dtype=None):
+        res = self.toarray()
+        return res if dtype is None else res.astype(dtype)
         
     def dot(self, b):
         if isinstance(b, simple_diag_matrix):
-- 
2.43.0


From 928d477aa991f7aa19772dc49d7bf60933928326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 042/100] fix: invtr failed with an AttributeError instead of
 LinAlgError for singular input

---
 evoMPS/matmul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/matmul.py b/evoMPS/matmul.py
index 43104f5..0af7282 100644
--- a/evoMPS/matmul.py
+++ b/evoMPS/matmul.py
@@ -461,7 +461,7 @@ def invtr(A, overwrite=False, lower=False):
     inv_A, info = trtri(A, lower=lower, overwrite_c=overwrite)
     
     if info > 0:
-        raise sp.LinAlgError("%d-th diagonal element of the matrix is zero" % info)
+        raise la.LinAlgError("%d-th diagonal element of the matrix is zero" % info)
     if info < 0:
         raise ValueError('illegal value in %d-th argument of internal potri'
                                                                     % -info)       
-- 
2.43.0


From 1c8ef47948969f86d6a1128fc9317209d2e91f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 043/100] fix: herm_fac_with_inv gave infinities for a matrix
 without eigenvalues above the zero tolerance

---
 evoMPS/tdvp_common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index bf4f6fe..e0855ab 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -666,14 +666,16 @@ def herm_fac_with_inv(A, lower=False, zero_tol=1E-15, return_rank=False,
         
         nonzeros = np.count_nonzero(ev > zero_tol) 
 
+        zeros = ev.shape[0] - nonzeros
+
         ev_sq = sp.zeros_like(ev, dtype=A.dtype)
-        ev_sq[-nonzeros:] = sp.sqrt(ev[-nonzeros:])
+        ev_sq[zeros:] = sp.sqrt(ev[zeros:])
         ev_sq = mm.simple_diag_matrix(ev_sq, dtype=A.dtype)
         
         if calc_inv:
             #Replace almost-zero values with zero and perform a pseudo-inverse
             ev_sq_i = sp.zeros_like(ev, dtype=A.dtype)
-            ev_sq_i[-nonzeros:] = 1. / ev_sq.diag[-nonzeros:]
+            ev_sq_i[zeros:] = 1. / ev_sq.diag[zeros:]
             
             ev_sq_i = mm.simple_diag_matrix(ev_sq_i, dtype=A.dtype)        
                    
@@ -693,7 +695,7 @@ def herm_fac_with_inv(A, lower=False, zero_tol=1E-15, return_rank=False,
                         la.norm(A - A.conj().T), sc_data)
         
         eye = sp.zeros((A.shape[0]), dtype=A.dtype)
-        eye[-nonzeros:] = 1
+        eye[A.shape[0] - nonzeros:] = 1
         eye = mm.simple_diag_matrix(eye)
         
         if lower:
-- 
2.43.0


From ea45ddde11c0b7d6c45c7917b58b3087bf0ed1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 044/100] fix: restore_SCF inverted the smallest instead of the
 largest Schmidt coefficients of rank-deficient states

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 21134e3..e9ce4fb 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -742,7 +742,7 @@ class EvoMPS_MPS_Uniform(object):
             #Invert the square roots of the Schmidt coefficients.
             nonzeros = np.count_nonzero(S.diag > zero_tol)
             Srti = sp.zeros_like(S.diag, dtype=S.dtype)
-            Srti[-nonzeros:] = 1. / Srt.diag[-nonzeros:]
+            Srti[:nonzeros] = 1. / Srt.diag[:nonzeros]
             Srti = m.simple_diag_matrix(Srti, dtype=S.dtype)  
             
             g = Srti.dot(U.conj().T).dot(Y)
-- 
2.43.0


From 16d3309768b3958c0e03b5cc6ec926df0bfdc00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 045/100] fix: restore_LCF applied the diagonalising gauge
 transformation to the wrong indices

---
 evoMPS/mps_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index e9ce4fb..6b15889 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -936,8 +936,8 @@ class EvoMPS_MPS_Uniform(object):
             if diag_r:
                 ev, EV = la.eigh(self.r[k])
         
-                G[k] = EV.dot(G[k])
-                G_i[k] = G_i[k].dot(EV.conj().T)
+                G[k] = G[k].dot(EV)
+                G_i[k] = EV.conj().T.dot(G_i[k])
                               
                 self.r[k] = m.simple_diag_matrix(ev, dtype=self.typ)
             
-- 
2.43.0


From 355337cbc48d354b132f230bb8eb6a981eab2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 046/100] fix: fixed point search rejected valid states over
 rounding errors and reported failure after a successful last retry

---
 evoMPS/mps_uniform.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 6b15889..795fbc2 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -366,8 +366,9 @@ class EvoMPS_MPS_Uniform(object):
                 ev, eV = las.eigs(opE, which=which, k=nev, v0=v0, tol=tol, ncv=ncv)
                 conv = True
                 ind = abs(ev).argmax()
-                ev = np.real_if_close(ev[ind])
-                ev = np.asscalar(ev)
+                ev = np.asscalar(ev[ind])
+                if abs(np.imag(ev)) <= 1E-10 * abs(ev):
+                    ev = ev.real #imaginary part due to rounding only
                 eV = eV[:, ind]
                 if abs(ev) < 1E-12:
                     raise ValueError("Largest eigenvalue too small!")
@@ -379,8 +380,7 @@ class EvoMPS_MPS_Uniform(object):
                 v0 = None
                 nev += 1
                 ncv += 5
-                
-        if i == max_retries - 1:
+        else:
             log.error("_calc_lr_ARPACK(nev=%u,ncv=%u): Failed to converge! (%s)", nev, ncv, "l" if calc_l else "r")
             raise EvoMPSNoConvergence("_calc_lr_ARPACK: Failed to converge!")
         
@@ -453,8 +453,7 @@ class EvoMPS_MPS_Uniform(object):
                 log.warning("_calc_E_largest_eigenvalues: Retry %u!", i)
                 nev += 1
                 ncv = nev * 3
-        
-        if i == max_retries - 1:
+        else:
             log.error("_calc_E_largest_eigenvalues: Failed to converge!")
             raise EvoMPSNoConvergence("_calc_E_largest_eigenvalues failed!")
 
-- 
2.43.0


From 877391430b200cfa3dbbb4a7fb057380cf581b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 047/100] fix: herm_fac_with_inv ignored zero_tol when the
 Cholesky factorisation of a numerically singular matrix went through

---
 evoMPS/tdvp_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index e0855ab..1f999dd 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -645,6 +645,9 @@ def herm_fac_with_inv(A, lower=False, zero_tol=1E-15, return_rank=False,
     if not force_evd:
         try:
             x = la.cholesky(A, lower=lower)
+            if (abs(x.diagonal())**2).min() <= zero_tol:
+                raise sp.linalg.LinAlgError("Matrix is not pos. def. within zero_tol!")
+            
             if calc_inv:
                 xi = mm.invtr(x, lower=lower)
             else:
-- 
2.43.0


From 68a22ada042dac1430ea72ea94be85aecea9056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 048/100] fix: two-site expectation values of uniform states
 used stale products of tensors and the environment of the wrong site

---
 evoMPS/mps_uniform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 795fbc2..1af5b6b 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1451,8 +1451,10 @@ class EvoMPS_MPS_Uniform(object):
             op = np.vectorize(op, otypes=[np.complex128])
             op = np.fromfunction(op, (self.q, self.q, self.q, self.q))        
         
-        Ck = tm.calc_C_mat_op_AA(op, self.AA[k])
-        res = tm.eps_r_op_2s_C12_AA34(self.r[k], Ck, self.AA[k])
+        kp1 = (k + 1) % self.L
+        AA = tm.calc_AA(self.A[k], self.A[kp1])
+        Ck = tm.calc_C_mat_op_AA(op, AA)
+        res = tm.eps_r_op_2s_C12_AA34(self.r[kp1], Ck, AA)
         
         return m.adot(self.l[k - 1], res)
         
@@ -1479,7 +1481,7 @@ class EvoMPS_MPS_Uniform(object):
         """
         L = self.L
         Ck = tm.calc_C_tp(op_tp, self.A[k], self.A[(k + 1) % L])
-        res = tm.eps_r_op_2s_C12_tp(self.r[k], Ck, self.A[k], self.A[(k + 1) % L])
+        res = tm.eps_r_op_2s_C12_tp(self.r[(k + 1) % L], Ck, self.A[k], self.A[(k + 1) % L])
         
         return m.adot(self.l[k - 1], res)
         
-- 
2.43.0


From a6ea190d448352530dc40c91322a03a13540342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 049/100] fix: correlation_1s_1s returned the expectation
 values of the first operator in place of those of the second

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 1af5b6b..c945afd 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1421,7 +1421,7 @@ class EvoMPS_MPS_Uniform(object):
             
         if return_exvals:
             ex1_ = sp.tile(ex1, [(d + 1) // L + 1])[:d + 1]
-            ex2_ = sp.tile(ex1, [(d + 1) // L + 1])[:d + 1]
+            ex2_ = sp.tile(ex2, [(d + 1) // L + 1])[:d + 1]
             return ccf, ex1_, ex2_
         else:
             return ccf
-- 
2.43.0


From e4fc8710c10b9dd3600cd1c646b0fa9f1b543b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 050/100] fix: uniform expect_3s failed for operators given as
 functions

---
 evoMPS/mps_uniform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index c945afd..8931c32 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1511,8 +1511,7 @@ class EvoMPS_MPS_Uniform(object):
 
         if callable(op):
             op = sp.vectorize(op, otypes=[sp.complex128])
-            op = sp.fromfunction(op, (A.shape[0], A.shape[0], A.shape[0],
-                                      A.shape[0], A.shape[0], A.shape[0]))
+            op = sp.fromfunction(op, (self.q,) * 6)
 
         C = tm.calc_C_3s_mat_op_AAA(op, AAA)
         res = tm.eps_r_op_3s_C123_AAA456(self.r[(k + 2) % self.L], C, AAA)
-- 
2.43.0


From 9239b4ae69fb6d1392dc5a23a992968acc0f5404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 051/100] fix: transfer operator spectra of very small bond
 dimension failed when the sparse solver was forced

---
 evoMPS/mps_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 8931c32..1acc083 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -421,7 +421,8 @@ class EvoMPS_MPS_Uniform(object):
             other=self
         ED = self.D * other.D
         
-        if (ED <= dense_cutoff or force_dense) and not force_sparse:
+        #the sparse solver cannot find (almost) all eigenvalues
+        if ((ED <= dense_cutoff or force_dense) and not force_sparse) or ED <= nev + 1:
             E = self._get_dense_transfer_op_block(k=k, other=other)
                 
             if return_eigenvectors:
-- 
2.43.0


From 69647bb07f9b6c27123fe1212944e681724d2c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 052/100] fix: string values of uniform product states were
 returned as matrices

---
 evoMPS/mps_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 1acc083..70db43e 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1627,7 +1627,7 @@ class EvoMPS_MPS_Uniform(object):
             for j in range(self.L):
                 evk = 0
                 for s in range(self.q):
-                    evk += Aop[j][s] * Ashift[j][s].conj()
+                    evk += Aop[j][s, 0, 0] * Ashift[j][s, 0, 0].conj()
                 ev *= evk
             eV = sp.ones((1), dtype=sp.complex128)
         else:            
@@ -1786,7 +1786,7 @@ class EvoMPS_MPS_Uniform(object):
             for k in range(self.L):
                 evk = 0
                 for s in range(self.q):
-                    evk += Aop[k][s] * self.A[k][s].conj()
+                    evk += Aop[k][s, 0, 0] * self.A[k][s, 0, 0].conj()
                 ev *= evk
             return ev**(1./self.L)
         else:            
-- 
2.43.0


From 8b48a1164c9ecbc125f50e0888a871164f9a1d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 053/100] fix: expect_string_per_site_1s returned an array in
 place of a number

---
 evoMPS/mps_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 70db43e..7ab5c22 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1791,7 +1791,8 @@ class EvoMPS_MPS_Uniform(object):
             return ev**(1./self.L)
         else:            
             opE = self._get_EOP(Aop, self.A, False)
-            ev = las.eigs(opE, v0=np.asarray(self.r[-1]), which='LM', k=1, ncv=ncv)
+            ev = las.eigs(opE, v0=np.asarray(self.r[-1]).ravel(), which='LM', k=1, ncv=ncv,
+                          return_eigenvectors=False)
             return ev[0]**(1./self.L)
             
     def expect_string_1s(self, op, k, d):
-- 
2.43.0


From 90b76ea8dc62915b20e361d1158804b73644c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 054/100] fix: left eigenvectors of the transfer operator came
 with the complex conjugate eigenvalue from the sparse solver

---
 evoMPS/mps_uniform.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 7ab5c22..e8c83e3 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -458,6 +458,12 @@ class EvoMPS_MPS_Uniform(object):
             log.error("_calc_E_largest_eigenvalues: Failed to converge!")
             raise EvoMPSNoConvergence("_calc_E_largest_eigenvalues failed!")
 
+        if left: #opE is the adjoint of the transfer operator in this case
+            if return_eigenvectors:
+                res = (res[0].conj(), res[1])
+            else:
+                res = res.conj()
+
         return res
 
     def calc_E_gap(self, tol=1E-14, nev=2, ncv=None):
-- 
2.43.0


From bc8af2528181de75b4f50a395be849c3d76ebb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 055/100] fix: expect_sum_1s_density_hc failed for operators
 given as functions

---
 evoMPS/mps_uniform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index e8c83e3..81dd629 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1706,6 +1706,10 @@ class EvoMPS_MPS_Uniform(object):
             Matrix representing the action of the string operator within the
             space of Schmidt vectors.
         """
+        if callable(op):
+            op = np.vectorize(op, otypes=[np.complex128])
+            op = np.fromfunction(op, (self.q, self.q))
+
         expval = 0
         for j in range(self.L):
             expval += self.expect_1s(op, j)
-- 
2.43.0


From fba8eb9d10e740a6ca5f698c936f2b20859d96be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 056/100] fix: expect_sum_1s_density_hc returned only one of
 its results for product states

---
 evoMPS/mps_uniform.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 81dd629..e3becbf 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1730,7 +1730,11 @@ class EvoMPS_MPS_Uniform(object):
         expval2 = m.adot(self.l[k - 1], rops)
 
         if self.D == 1:
-            return sp.zeros((1), dtype=self.typ)
+            expvals = sp.zeros((1), dtype=self.typ)
+            if return_g:
+                return expvals, expval2/self.L, expvals.reshape((1, 1))
+            else:
+                return expvals, expval2/self.L
 
         Ashift = self.A[k:] + self.A[:k]
         virtop = pinv.pinv_1mE(
-- 
2.43.0


From 910e8104ba655f8351ca8363a2e58cc7d36e0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 057/100] fix: expect_sum_1s_density_hc used the right
 environment of the wrong bond for unit cells of several sites

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index e3becbf..e0fb517 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1742,7 +1742,7 @@ class EvoMPS_MPS_Uniform(object):
             Ashift,
             Ashift,
             self.l[(k - 1) % self.L],
-            self.r[k],
+            self.r[(k - 1) % self.L],
             left=False,
             pseudo=True,
             tol=tol,
-- 
2.43.0


From 9bf6aedcd5940e15c2ceeb0c99c07ea19f392982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 058/100] fix: uniform entropy was not a number when a Schmidt
 coefficient vanished

---
 evoMPS/mps_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index e0fb517..e3d724c 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1277,7 +1277,8 @@ class EvoMPS_MPS_Uniform(object):
             The squared Schmidt coefficients.
         """
         lam = self.schmidt_sq(k=k)
-        S = -np.sum(lam * sp.log2(lam)).real
+        flt = lam.nonzero()
+        S = -np.sum(lam[flt] * sp.log2(lam[flt])).real
             
         if ret_schmidt_sq:
             return S, lam
-- 
2.43.0


From aab7cfd51e808a6d37124f72e7d62229ad901592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 059/100] fix: uniform TDVP ignored ham_sites for Hamiltonians
 given as functions

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index fb1126e..6c631b1 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -72,7 +72,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
     def _init_arrays(self, D, q, L):
         super(EvoMPS_TDVP_Uniform, self)._init_arrays(D, q, L)
             
-        self.set_ham(self.ham)
+        self.set_ham(self.ham, self.ham_sites if callable(self.ham) else None)
             
         self.AAA = [None] * L
         
-- 
2.43.0


From 321b7600504e5ea9f6acf1dc470fd8f291f10cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 060/100] fix: phase_align left a phase for states of different
 block lengths

---
 evoMPS/mps_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index e3d724c..98b1864 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1157,7 +1157,8 @@ class EvoMPS_MPS_Uniform(object):
         """
         _, phi = self.fidelity_per_site(other, full_output=False, left=False)
 
-        self.A[0] *= phi.conj() / abs(phi)
+        #phi belongs to the least common multiple of the two block lengths
+        self.A[0] *= (phi.conj() / abs(phi))**(gcd(self.L, other.L) / other.L)
         
         return phi
 
-- 
2.43.0


From 7e6133a2b9c58f664533bf0cfb25e7a51f9b3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 061/100] fix: exported and imported states shared their arrays
 with the state objects

---
 evoMPS/tdvp_uniform.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 6c631b1..28cc00b 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1486,17 +1486,17 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         if userdata is None:
             userdata = self.userdata
 
-        lL = np.asarray(self.l[-1])
-        rL = np.asarray(self.r[-1])
+        lL = np.array(self.l[-1])
+        rL = np.array(self.r[-1])
             
         tosave = np.empty((5), dtype=np.ndarray)
         if self.L == 1:
-            tosave[0] = self.A[0]
+            tosave[0] = sp.array(self.A[0])
         else:
             tosave[0] = sp.array(self.A)
         tosave[1] = lL
         tosave[2] = rL
-        tosave[3] = self.K[0]
+        tosave[3] = sp.array(self.K[0])
         tosave[4] = np.asarray(userdata)
         
         return tosave
@@ -1507,10 +1507,10 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
     def import_state(self, state, expand=False, truncate=False, 
                      expand_q=False, shrink_q=False, refac=0.1, imfac=0.1,
                      do_update=True):
-        newA = state[0]
-        newlL = state[1]
-        newrL = state[2]
-        newK0 = state[3]
+        newA = state[0].copy()
+        newlL = state[1].copy()
+        newrL = state[2].copy()
+        newK0 = state[3].copy()
         if state.shape[0] > 4:
             self.userdata = state[4]
             
-- 
2.43.0


From 888a24c0ced173456f3e197ccf3c3b6f99609101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 062/100] fix: loading a uniform state with another site
 dimension called methods that do not exist

---
 evoMPS/tdvp_uniform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 28cc00b..6d9c2b5 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1565,7 +1565,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             self.K[0] = newK0
             self.l[-1] = np.asarray(newlL)
             self.r[-1] = np.asarray(newrL)
-            self.expand_q(newQ)
+            self.set_q(newQ)
             self.lL_before_CF = self.l[-1]
             self.rL_before_CF = self.r[-1]
             log.warning("EXPANDED in q!")
@@ -1574,12 +1574,12 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         newA[0].shape[2]) and (newA[0].shape[1] == self.A[0].shape[1]):
             newQ = self.q
             savedQ = newA[0].shape[0]
-            self._init_arrays(self.D, savedQ)
+            self._init_arrays(self.D, savedQ, self.L)
             self.A = newA
             self.K[0] = newK0
             self.l[-1] = np.asarray(newlL)
             self.r[-1] = np.asarray(newrL)
-            self.shrink_q(newQ)
+            self.set_q(newQ)
             self.lL_before_CF = self.l[-1]
             self.rL_before_CF = self.r[-1]
             log.warning("SHRUNK in q!")
-- 
2.43.0


From 08b48da60b84623d7c962893298dfc99aef6f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 063/100] fix: blocking a uniform TDVP state failed for
 Hamiltonians given as functions or products

---
 evoMPS/tdvp_uniform.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 6d9c2b5..ca3cc94 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -174,7 +174,15 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         
         #Currently, all supported Hams become nearest-neighbour.
         newham = sp.zeros((newq**2, newq**2), dtype=self.typ)
-        oldham = self.ham.reshape((q**self.ham_sites, q**self.ham_sites))
+        if not self.ham_tp is None:
+            oldham = sum([sp.kron(op[0], op[1]) for op in self.ham_tp])
+            self.ham_tp = None
+        else:
+            oldham = self.ham
+            if callable(oldham):
+                oldham = np.vectorize(oldham, otypes=[np.complex128])
+                oldham = np.fromfunction(oldham, (q,) * (2 * self.ham_sites))
+            oldham = oldham.reshape((q**self.ham_sites, q**self.ham_sites))
         
         for k in range(L):
             newham += sp.kron(sp.kron(sp.eye(q**k), oldham), sp.eye(q**(2 * L - k - self.ham_sites)))
-- 
2.43.0


From 3793cf8333b8fa3fbffb7b588d8e5d1a88fa1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 064/100] fix: left energy environments of larger unit cells
 were built from right environments

---
 evoMPS/tdvp_uniform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index ca3cc94..6c5840e 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -432,20 +432,20 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         if self.ham_sites == 2:
             if not self.ham_tp is None:
                 for k in sp.arange(0, L - 1):
-                    self.K_left[k], hk = tm.calc_K_l_tp(self.K[(k - 1) % L],  
+                    self.K_left[k], hk = tm.calc_K_l_tp(self.K_left[(k - 1) % L],  
                                                  self.l[(k - 2) % L], self.r[k],
                                                  self.A[(k - 1) % L], self.A[k],
                                                  self.C[(k - 1) % L])
                     self.K_left[k] -= self.l[k] * hk
             else:
                 for k in sp.arange(0, L - 1):
-                    self.K_left[k], hk = tm.calc_K_l(self.K[(k - 1) % L], self.C[(k - 1) % L], 
+                    self.K_left[k], hk = tm.calc_K_l(self.K_left[(k - 1) % L], self.C[(k - 1) % L], 
                                                  self.l[(k - 2) % L], self.r[k],
                                                  self.A[k], self.AA[(k - 1) % L])
                     self.K_left[k] -= self.l[k] * hk
         else:
             for k in sp.arange(0, L - 1):
-                self.K_left[k], hk = tm.calc_K_3s_l(self.K[(k - 1) % L], self.C[(k - 2) % L], 
+                self.K_left[k], hk = tm.calc_K_3s_l(self.K_left[(k - 1) % L], self.C[(k - 2) % L], 
                                                 self.l[(k - 3) % L], self.r[k],
                                                 self.A[k],
                                                 self.AAA[(k - 2) % L])
-- 
2.43.0


From 5061326f0c0b56234dc5b274f9245e8e71677e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 065/100] fix: uniform expect_2s of the Hamiltonian failed when
 the Hamiltonian was also given as products

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 6c5840e..c22e4b0 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1643,7 +1643,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         m.randomize_cmplx(self.K[0].ravel()[oldD**2:], a=0, b=val, aj=0, bj=0)
         
     def expect_2s(self, op, k=0):
-        if op is self.ham and self.ham_sites == 2:
+        if op is self.ham and self.ham_sites == 2 and self.ham_tp is None:
             res = tm.eps_r_op_2s_C12_AA34(self.r[(k + 1) % self.L], self.C[k], self.AA[k])
             return m.adot(self.l[(k - 1) % self.L], res)
         else:
-- 
2.43.0


From 5306dbb533bf156db14f0293372b2b8c3bf9f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 066/100] fix: uniform Runge-Kutta steps lost the third stage,
 ignored the rescaling of the stages and changed the given direction

---
 evoMPS/tdvp_uniform.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index c22e4b0..24c589a 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -702,10 +702,13 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             B calculated using self.calc_B() (if known, to avoid calculating it again).
         """
         def update():
+            norms = [la.norm(Ak) for Ak in self.A]
             self.calc_lr()
             self.calc_AA()
             self.calc_C()
-            self.calc_K()            
+            self.calc_K()
+            #calc_lr() rescales A. Returns the factors that undo this.
+            return [norms[k] / la.norm(self.A[k]) for k in range(self.L)]
 
         A0 = cp.deepcopy(self.A)
             
@@ -713,7 +716,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             B = B_i
         else:
             B = self.calc_B() #k1
-        B_fin = B
+        B_fin = [Bk.copy() for Bk in B]
         self.take_step(dtau / 2., B=B, dynexp=dynexp, D_max=D_max, dD_max=dD_max, sv_tol=sv_tol, BB=BB)
 
         dD = self.A[0].shape[1] - A0[0].shape[1]
@@ -722,24 +725,27 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             #B part doesn't work due to different scaling with dtau :(
             assert False
         
-        update()
+        fac = update()
         
         B = self.calc_B(set_eta=False) #k2                
         for k in range(self.L):
+            B[k] *= fac[k]
             self.A[k] = A0[k] - dtau/2 * B[k]
             B_fin[k] += 2 * B[k]
             
-        update()
+        fac = update()
             
         B = self.calc_B(set_eta=False) #k3                
         for k in range(self.L):
+            B[k] *= fac[k]
             self.A[k] = A0[k] - dtau * B[k]
-            B_fin += 2 * B[k]
+            B_fin[k] += 2 * B[k]
 
-        update()
+        fac = update()
         
         B = self.calc_B(set_eta=False) #k4
         for k in range(self.L):
+            B[k] *= fac[k]
             B_fin[k] += B[k]
             self.A[k] = A0[k] - dtau/6 * B_fin[k]
              
-- 
2.43.0


From 421cc2babeef81232faf50474efbdf170c24d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 067/100] fix: expanding uniform steps lost the tangent vector
 norms they calculate

---
 evoMPS/tdvp_uniform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 24c589a..f4c186e 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -671,7 +671,9 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
                 BB1, BB2, etaBB_sq = BB
                 oldD = self.D
                 dD = BB1[0].shape[2]
+                etas = self.eta_sq, self.eta, self.etaBB_sq, self.etaBB
                 self.expand_D(self.D + dD, refac=0, imfac=0) #FIXME: Currently expands all D
+                self.eta_sq, self.eta, self.etaBB_sq, self.etaBB = etas
                 #print BB1.shape, la.norm(BB1.ravel()), BB2.shape, la.norm(BB2.ravel())
                 for k in range(self.L):
                     self.A[k][:, :oldD, :oldD] += -dtau * B[k]
-- 
2.43.0


From 5c0930723da754934a5ec5e9b5b37c4d1f6b542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 068/100] fix: expanding uniform steps failed when the bonds of
 a cell need different dimensions

---
 evoMPS/tdvp_uniform.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index f4c186e..a96f481 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -594,10 +594,16 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         
         BB1 = [None] * L
         BB2 = [None] * L
-        for k in range(L):
-            BB1[k], BB2[(k + 1) % L], dD = tm.calc_BB_2s(Y[k], Vlh[k], Vrh[(k + 1) % L], 
-                                              self.l_sqrt_i[k - 1], self.r_sqrt_i[(k + 1) % L],
-                                              dD_max=dD_max, sv_tol=0) #FIXME: Make D variable...
+        dD = [0] * L
+        def calc_BBs(dD_max, sv_tol):
+            for k in range(L):
+                BB1[k], BB2[(k + 1) % L], dD[k] = tm.calc_BB_2s(Y[k], Vlh[k], Vrh[(k + 1) % L], 
+                                                  self.l_sqrt_i[k - 1], self.r_sqrt_i[(k + 1) % L],
+                                                  dD_max=dD_max, sv_tol=sv_tol)
+                                                  
+        calc_BBs(dD_max, 0) #FIXME: Make D variable...
+        if min(dD) != max(dD):
+            calc_BBs(max(dD), -1) #some zeros, since all bonds must be expanded equally
         
         return BB1, BB2, etaBB_sq
         
-- 
2.43.0


From 083ed9fcdbc7c1e40bcee6f51dce1630b1b4374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 069/100] fix: overlaps of tangent vectors that are not gauge
 fixed lost contributions that cancel over the unit cell

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index a96f481..ab0a561 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1050,7 +1050,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
                 
         #print "BRblock", la.norm(BRblock.ravel())
                 
-        if sp.allclose(BRblock.ravel(), 0, rtol=GF_tol): #Skip the far connected contributions if we are approximately gauge-fixing
+        if all(sp.allclose(BRrk, 0, rtol=GF_tol) for BRrk in BRr): #Skip the far connected contributions if we are approximately gauge-fixing
             BRblock_fid = 0
         else:
             BRblock_fid = m.adot(l[-1], BRblock)
-- 
2.43.0


From 51363a42a37ad7cedc4850bc807e975fdcef0f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 070/100] fix: conjugate-gradient steps could raise the energy
 after a repeated line search

---
 evoMPS/tdvp_uniform.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index ab0a561..ec4061c 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1490,6 +1490,12 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             ls = EvoMPS_line_search(self, BCG, BG, B_overlap_tol=B_overlap_tol)
             try:
                 tau, h_min, ind = ls.brentq(tau_init)
+                #The search may still have ended with a higher energy: Backtrack.
+                while h_min - ls.hs[0] > max(self.itr_rtol * 10, 1E-14) and tau > tau_init * 1E-6:
+                    tau *= 0.5
+                    ls.f(tau)
+                    ind = ls.taus.index(tau)
+                    h_min = ls.hs[ind]
             except (EvoMPSNoConvergence, EvoMPSNormError):
                 tau = 0
             
-- 
2.43.0


From 1bc5f3a0f2f939e6e967f3b1eb4b0a1384a5ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 071/100] fix: connected correlations around a local
 disturbance used the wrong one-site value

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index ec4061c..871c636 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1769,7 +1769,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         
         g = sp.array(g)
         
-        c = g - exs1 * exs2
+        c = g - exs1[0] * exs2
                    
         return c, g
 
-- 
2.43.0


From 22e9f3e27d875077adedad8df0a0ede8139cf82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 072/100] fix: sandwich states with a window of one site could
 not be updated

---
 evoMPS/mps_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 1058ebc..6e27067 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -68,7 +68,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         self.N = N
         """The number of sites. Do not change after initializing."""
         
-        self.N_centre = N // 2
+        self.N_centre = max(N // 2, 1)
         """The 'centre' site. This affects the gauge-fixing and canonical
            form. It is the site between the left-gauge parts and the 
            right-gauge parts."""
-- 
2.43.0


From f949476bd505986130ef47fcccc1cf826870171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 073/100] fix: sandwich environments right of the window
 ignored where the unit cell starts

---
 evoMPS/mps_sandwich.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 6e27067..6577925 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -605,17 +605,17 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             return self.uni_l.l[(n - 1) % self.uni_l.L]
         else:
             l_m1 = self.l[self.N + 1] #this is position 0 in the block
-            for m in (sp.arange(self.N + 2, n + 1) - 1) % self.uni_r.L:
+            for m in (sp.arange(self.N + 2, n + 1) - self.N - 1) % self.uni_r.L:
                 l_m1 = tm.eps_l_noop(l_m1, self.uni_r.A[m], self.uni_r.A[m])
             return l_m1
 
     def get_r(self, n, r_np1=None):
         """Gets an r[n], even if n < 0 or n > N + 1
         """
-        if 0 <= n <= self.N + 1:
+        if 0 <= n <= self.N:
             return self.r[n]
-        elif n > self.N + 1:
-            return self.uni_r.r[(n - 1) % self.uni_r.L]
+        elif n > self.N:
+            return self.uni_r.r[(n - self.N - 1) % self.uni_r.L]
         else:
             if r_np1 is None:
                 r_m = self.r[0]
-- 
2.43.0


From c6a6b57f9d11786030e7fd50d31b312fffb2b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 074/100] fix: sandwich_from_tensors failed for bulks of
 different bond dimension or cell length

---
 evoMPS/mps_sandwich.py | 30 +-----------------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 6577925..29e6d07 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -22,35 +22,7 @@ def sandwich_from_tensors(As_L, As_C, As_R):
     `As_C` is the central nonuniform window.
     `As_R` is the right uniform bulk unit cell.
     """
-    N = len(As_C)
-
-    qL = As_L[0].shape[0]
-    DL = As_L[0].shape[1]
-    dtype = As_L[0].dtype
-    sw = EvoMPS_MPS_Sandwich(
-        N,
-        EvoMPS_MPS_Uniform(
-            DL, qL, L=len(As_L), dtype=dtype, do_update=False)
-    )
-
-    for n in range(1, N + 1):
-        sw.A[n] = As_C[n - 1]
-
-    Ds = sp.array(
-        [DL] +
-        [sw.A[n].shape[2] for n in range(1, N + 1)] +
-        [As_R[0].shape[1]]
-    )
-    sw.D = Ds
-
-    sw.uni_l.A = As_L
-    sw.uni_r.A = As_R
-    sw.uni_l.update(restore_CF=False)
-    sw.uni_r.update(restore_CF=False)
-
-    sw.update(restore_CF=False, normalize=False)
-
-    return sw
+    return EvoMPS_MPS_Sandwich.from_tensors(As_L, As_C, As_R)
 
 
 class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
-- 
2.43.0


From 55f743e78aeec2e31b7bc776b524019004ad819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 075/100] fix: sandwich states built from tensors changed the
 given tensors

---
 evoMPS/mps_sandwich.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 29e6d07..a6416da 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -124,7 +124,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         )
 
         for n in range(1, N + 1):
-            sw.A[n] = As_C[n - 1]
+            sw.A[n] = As_C[n - 1].copy()
 
         Ds = sp.array(
             [DL] +
@@ -133,8 +133,8 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         )
         sw.D = Ds
 
-        sw.uni_l.A = As_L
-        sw.uni_r.A = As_R
+        sw.uni_l.A = [A.copy() for A in As_L]
+        sw.uni_r.A = [A.copy() for A in As_R]
         sw.uni_l.update(restore_CF=False)
         sw.uni_r.update(restore_CF=False)
 
-- 
2.43.0


From be51c80ee8a37f51bb2dfed0da796c47521ce8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 076/100] fix: overlaps of sandwich states with a window of one
 site counted the site twice

---
 evoMPS/mps_sandwich.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index a6416da..1e17c5a 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -669,18 +669,13 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             print("Right bulk states do not match!")
             return 0
 
-        AN = other.A[self.N].copy()
-        for s in range(AN.shape[0]):
-            AN[s] = AN[s].dot(gri)
-
-        A1 = other.A[1].copy()
-        for s in range(A1.shape[0]):
-            A1[s] = gl.dot(A1[s])
-
-        r = tm.eps_r_noop(self.uni_r.r[-1], self.A[self.N], AN)
-        for n in range(self.N - 1, 1, -1):
-            r = tm.eps_r_noop(r, self.A[n], other.A[n])
-        r = tm.eps_r_noop(r, self.A[1], A1)
+        oA = other.A.copy()
+        oA[self.N] = sp.array([As.dot(gri) for As in oA[self.N]])
+        oA[1] = sp.array([gl.dot(As) for As in oA[1]])
+
+        r = self.uni_r.r[-1]
+        for n in range(self.N, 0, -1):
+            r = tm.eps_r_noop(r, self.A[n], oA[n])
 
         return mm.adot(self.uni_l.l[-1], r)
 
-- 
2.43.0


From ad420cf93f15198c70ecfc1ce3858aed4fcbfdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 077/100] fix: overlaps with tangent vectors used the wrong
 phases in the left bulk

---
 evoMPS/mps_sandwich.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 1e17c5a..7196124 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -705,7 +705,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         # FIXME: rR is not correct here since, even if top_triv is true,
         #        AL and AR need not be equal.
         vBL = pinv_1mE(
-            tm.eps_l_noop(lL, AL, B), [AL], [AR], lL, rR, p=p, 
+            tm.eps_l_noop(lL, AL, B), [AL], [AR], lL, rR, p=-p, 
             left=True, pseudo=pseudo)
 
         rs = [rR]
@@ -714,7 +714,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         # rs[0] is now the right half including site 1, so the r matrix needed
         # for computations involving site 0.
 
-        ol_left_bulk = mm.adot(vBL, rs[0]) * sp.exp(-1.j * p)
+        ol_left_bulk = mm.adot(vBL, rs[0])
 
         l = lL
         ols_window = []
-- 
2.43.0


From c49c276e12dbd201715d80b569aaa740bb2f88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 078/100] fix: loading a sandwich state with automatic growth
 grew too far for longer unit cells

---
 evoMPS/mps_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 7196124..2f47abc 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -738,7 +738,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         if autogrow and toload[0].shape[0] != self.A.shape[0]:
             newN = toload[0].shape[0] - 3
             print("Changing N to: %u" % newN)
-            self.grow_left(newN - self.N)
+            self.grow_left((newN - self.N) // self.uni_l.L)
 
         if toload[0].shape != self.A.shape:
             print("Cannot load state: Dimension mismatch!")
-- 
2.43.0


From 8cf6b206d41ecb0fdb6181a140e2b529c313d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 079/100] fix: sandwich: evolve with a Hamiltonian given as a
 function (terms at the right end had no array to take their shape from)

---
 evoMPS/tdvp_sandwich.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 0f5fe3c..a05d901 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -334,12 +334,11 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         self._C = sp.empty((self.N + 2), dtype=sp.ndarray) #Elements 1..N-1
 
         for n in range(-1, self.N + 1):
-            if n <= self.N - self.ham_sites + 1:
-                ham_shape = []
-                for i in range(self.ham_sites):
-                    ham_shape.append(self.get_q(n + i))
-                C_shape = tuple(ham_shape + [self.get_D(n - 1), self.get_D(n - 1 + self.ham_sites)])
-                self._C[n+1] = sp.full(C_shape, sp.NaN, dtype=self.typ, order=self.odr)
+            ham_shape = []
+            for i in range(self.ham_sites):
+                ham_shape.append(self.get_q(n + i))
+            C_shape = tuple(ham_shape + [self.get_D(n - 1), self.get_D(n - 1 + self.ham_sites)])
+            self._C[n+1] = sp.full(C_shape, sp.NaN, dtype=self.typ, order=self.odr)
         for n in range(self.N_centre + 1):
             self.K_l[n] = sp.full((self.D[n], self.D[n]), sp.NaN, dtype=self.typ, order=self.odr)
         for n in range(self.N_centre, self.N + 2):
-- 
2.43.0


From 9a3f06268f9fd43a91488218cefc52a7b5f482ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 080/100] fix: sandwich: local energies of three-site terms
 left of the centre were stored one term too far right (and the wrong ones
 subtracted from the centre's evolution direction)

---
 evoMPS/tdvp_sandwich.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index a05d901..d57e076 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -353,9 +353,11 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         """
         self.eta = sp.NaN
         
-        self.h_expect = sp.full((self.N + 1), sp.NaN, dtype=self.typ)
+        self.h_expect = sp.full((self.N + self.ham_sites - 1), sp.NaN, dtype=self.typ)
         """The local energy expectation values (of each Hamiltonian term), 
-           available after calling update() or calc_K()."""
+           available after calling update() or calc_K(). For a three-site
+           Hamiltonian, the last entry (index -1) belongs to the term acting 
+           on sites -1, 0 and 1."""
            
         self.dH_expect = sp.NaN
         """The energy-difference (compared to the uniform bulk state) 
@@ -446,7 +448,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         K_l[n] contains 'bra-vectors' such that <K_l[n]|r[n]> = trace(K_l[n].dot(r[n])).
         """
    
-        self.h_expect = sp.zeros((self.N + 1), dtype=self.typ)
+        self.h_expect = sp.zeros((self.N + self.ham_sites - 1), dtype=self.typ)
         
         self.uni_r.calc_AA()
         self.uni_r.calc_C()
@@ -478,7 +480,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
                     self.K_l[n - 1], self.get_C(n - 2), self.get_l(n - 3), self.r[n],
                     self.A[n], self.get_AAA(n - 2))
                 
-            self.h_expect[n - 1] = he
+            self.h_expect[n - self.ham_sites + 1] = he
 
         self.dH_expect = (mm.adot_noconj(self.K_l[self.N_centre], self.get_r(self.N_centre)) 
                           + mm.adot(
-- 
2.43.0


From bace88d569a48ce8372dfdf2bcaabf10c680abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 081/100] fix: sandwich: excess energy compares every term with
 the one in its place in the left bulk's cell, not with the average

---
 evoMPS/tdvp_sandwich.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index d57e076..66b493a 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -441,6 +441,20 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
                 self._AAA[n+1] = tm.calc_AAA_AA(self.get_AA(n), self.get_A(n + 2))
                 self._C[n+1] = tm.calc_C_3s_mat_op_AAA(ham_n, self.get_AAA(n))
 
+    def _calc_h_left(self):
+        """Local energy expectation values within the unit cell of the left bulk.
+        """
+        uni = self.uni_l
+        L = uni.L
+        h_left = []
+        for k in range(L):
+            if self.ham_sites == 2:
+                Hr = tm.eps_r_op_2s_C12_AA34(uni.r[(k + 1) % L], uni.C[k], uni.AA[k])
+            else:
+                Hr = tm.eps_r_op_3s_C123_AAA456(uni.r[(k + 2) % L], uni.C[k], uni.AAA[k])
+            h_left.append(mm.adot(uni.l[(k - 1) % L], Hr))
+        return h_left
+
     def calc_K(self):
         """Generates the right K matrices used to calculate the B's
         
@@ -482,11 +496,14 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
                 
             self.h_expect[n - self.ham_sites + 1] = he
 
+        #Each term is compared to the one in its place in the left bulk.
+        h_left = self._calc_h_left()
         self.dH_expect = (mm.adot_noconj(self.K_l[self.N_centre], self.get_r(self.N_centre)) 
                           + mm.adot(
                               self.get_l(self.N_centre - self.ham_sites + 1),
                               self.K[self.N_centre - self.ham_sites + 2]) 
-                          - (self.N + self.ham_sites - 1) * h_left_uni)
+                          - sum(h_left[(n - 1) % self.uni_l.L] 
+                                for n in range(2 - self.ham_sites, self.N + 1)))
         
 #        self.h_left = mm.adot_noconj(K_left, self.r[0])
 #        self.h_right = mm.adot(self.l[self.N], self.K[self.N + 1])
-- 
2.43.0


From 83056b9cff7929e140c8429753970842921c0cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 082/100] fix: sandwich: the three-site term reaching two sites
 into the left bulk used the last term of the list (index -1)

---
 evoMPS/tdvp_sandwich.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 66b493a..704ee91 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -428,11 +428,16 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         for n in range(n_low, n_high):
             if callable(self.ham):
                 ham_n = lambda *args: self.ham(n, *args)
-                ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
-                ham_n = sp.fromfunction(ham_n, tuple(self.get_C(n).shape[:-2] * 2))
+            elif n < 0:
+                #self.ham only has terms 0 to N
+                ham_n = self.uni_l.ham
             else:
                 ham_n = self.ham[n]
 
+            if callable(ham_n):
+                ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
+                ham_n = sp.fromfunction(ham_n, tuple(self.get_C(n).shape[:-2] * 2))
+
             if self.ham_sites == 2:
                 self._AA[n+1] = tm.calc_AA(self.get_A(n), self.get_A(n + 1))
                 self._C[n+1] = tm.calc_C_mat_op_AA(ham_n, self.get_AA(n))
-- 
2.43.0


From b4cd08a55ef86aaf612c73aa2cc9c461fd379fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 083/100] fix: sandwich: bulks of different bond dimensions can
 evolve (energy environments were copied into arrays of the left bulk's size)

---
 evoMPS/tdvp_sandwich.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 704ee91..76180c6 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -472,13 +472,13 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         self.uni_r.calc_AA()
         self.uni_r.calc_C()
         self.uni_r.calc_K()
-        self.K[self.N + 1][:] = self.uni_r.K[0]
+        self.K[self.N + 1] = self.uni_r.K[0].copy()
 
         self.uni_l.calc_AA()
         self.uni_l.calc_C()
         K_left, h_left_uni = self.uni_l.calc_K_l()
         
-        self.K_l[0][:] = K_left[-1]
+        self.K_l[0] = K_left[-1].copy()
 
         for n in range(self.N, self.N_centre - self.ham_sites + 1, -1):
             if self.ham_sites == 2:
-- 
2.43.0


From cf606a11a37e172e8274392db7c2085b23ef40be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 084/100] fix: sandwich: right environment beyond the window
 was stale without restoring the canonical form, and that of the wrong bond
 for several sites per cell

---
 evoMPS/mps_sandwich.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 2f47abc..5f2e5ec 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -247,6 +247,8 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         self.r[self.N] = self.uni_r.r[-1]
         super(EvoMPS_MPS_Sandwich, self).calc_r(n_low=n_low, n_high=n_high)
 
+        self.r[self.N + 1] = self.uni_r.r[0]
+
     def simple_renorm(self, update_lr=True):
         """Renormalizes the state in by multiplying one of the parameter
         tensors by a factor.
@@ -312,7 +314,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
 
             Gi = Gm1_i
 
-        self.r[self.N + 1] = self.r[self.N]
+        self.r[self.N + 1] = self.uni_r.r[0]
 
         #G is now G_nc
         for s in range(self.q[nc]):
-- 
2.43.0


From 6d58b116090bba9e88f3fdb2f93d034b769abcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 085/100] fix: sandwich: load_state failed on states with
 stored energy environments (truth value of an array)

---
 evoMPS/tdvp_sandwich.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 76180c6..eebc42d 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -961,9 +961,9 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
 
         toload = sp.load(file_name, allow_pickle=True)
 
-        if toload[3]:
+        if toload[3] is not None:
             self.uni_l.K_left[-1] = toload[3]
-        if toload[6]:
+        if toload[6] is not None:
             self.uni_r.K[0] = toload[6]
 
         if do_update:
-- 
2.43.0


From 7ffee287472352a0c72b314410d869616f3c8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 086/100] fix: RK4 steps of finite and sandwich states
 overwrote the arrays of a given direction

---
 evoMPS/tdvp_gen.py      | 3 ++-
 evoMPS/tdvp_sandwich.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index a0ddbcc..6ee190b 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -955,7 +955,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         #Take a copy of the current state
         A0 = [An.copy() if not An is None else None for An in self.A]
         
-        B_fin = self.calc_B() if B_i is None else B_i[:]
+        B_fin = self.calc_B() if B_i is None else B_i
+        B_fin = [None if Bn is None else Bn.copy() for Bn in B_fin] #updated in place
 
         for n in range(1, self.N + 1):
             if not B_fin[n] is None:
diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index eebc42d..fe87799 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -882,7 +882,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
             A0[n] = self.A[n].copy()
 
         B = self.calc_B() if B_i is None else B_i[:]
-        B_fin = B[:]
+        B_fin = [None if Bn is None else Bn.copy() for Bn in B]
 
         for n in range(1, self.N + 1):
             if not B[n] is None:
-- 
2.43.0


From 4bade2fc5db4a2238a2b0637291d07834640088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 087/100] fix: sandwich: load_state did not take over the bond
 dimensions of the window

---
 evoMPS/mps_sandwich.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 5f2e5ec..68bfa9c 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -747,6 +747,8 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             return
 
         self.A = toload[0]
+        for n in range(1, self.N + 1):
+            self.D[n - 1], self.D[n] = self.A[n].shape[1:]
         self.l[0] = toload[1]
         self.uni_l.r[-1] = toload[2]
         self.r[self.N] = toload[4]
-- 
2.43.0


From efe1604d61b2e3b14c1dbdea21ad48f86bbdceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 088/100] fix: sandwich: update() did not return the excess
 energy

---
 evoMPS/tdvp_sandwich.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index fe87799..0ea43ba 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -743,6 +743,8 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         self.calc_C()
         self.calc_K()
 
+        return self.dH_expect
+
     def compute_projection_error(self):
         """Quick copy-paste job to get the projection error for a 2-site Ham.
         """
-- 
2.43.0


From c474be771749a05397e79de34745e94b81769440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 089/100] fix: dissipative TDVP: real jump operators could not
 be used

---
 evoMPS/tdvp_gen_diss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 8180063..6cb7573 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -143,7 +143,7 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             Leff = -0.5 * Lr.conj().T.dot(Lr).reshape(L.shape)
             
             #Add the diffusion terms to the effective Hamiltonian by dividing by the step length
-            Leff += (sp.conj(Le) + W/dt) * L
+            Leff = Leff + (sp.conj(Le) + W/dt) * L
             
             Leffs.append((n, Leff))
                 
-- 
2.43.0


From 3a8476d324da40631d4b3c7661218c543ef51dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 090/100] fix: dissipative TDVP: Hamiltonians given as a
 callable (as documented) or None failed

---
 evoMPS/tdvp_gen_diss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 6cb7573..6ca4b57 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -148,12 +148,12 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             Leffs.append((n, Leff))
                 
         #Build the effective Hamiltonian
-        HL = [-1.j * hn if hn is not None else None for hn in self.ham]
+        if self.ham is None:
+            HL = [None] * (self.N + 1)
+        else:
+            HL = [-1.j * hn if hn is not None else None for hn in self._ham_arrays()]
         for (n, Leff) in Leffs:
-            if HL[n] is None:
-                HL[n] = Leff
-            else:
-                HL[n] += Leff
+            HL[n] = Leff if HL[n] is None else HL[n] + Leff
         
         #Compute the combined unitary and dissipative contributions using the effective Hamiltonian. 
         ham_tmp = self.ham
-- 
2.43.0


From 7d5cde3cd3b30de047a313997a024116ce9f6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 091/100] fix: dissipative TDVP: calc_B_1s_diss did not project
 out the change of the norm

---
 evoMPS/tdvp_gen_diss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 6ca4b57..c658c92 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -196,7 +196,7 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             for t in range(self.q[n]):
                 newAn[s] += self.A[n][t] * op[s, t]
                 
-        r_nm1 = TDVP.tm.eps_r_noop(self.r[n], newAn, newAn)
+        r_nm1 = TDVP.tm.eps_r_noop(self.r[n], newAn, self.A[n])
         ev = mm.adot(self.l[n - 1], r_nm1)
 
         newAn -= ev * self.A[n] #norm-fixing
-- 
2.43.0


From c0dbd2784f4db796019824d64844e6efbe6f573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 092/100] fix: dissipative TDVP: left gauge-fixing failed

---
 evoMPS/tdvp_gen_diss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index c658c92..0b070b6 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -159,7 +159,10 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         ham_tmp = self.ham
         self.ham = HL
         self.calc_C()
-        self.calc_K()
+        if self.gauge_fixing == 'right':
+            self.calc_K()
+        else:
+            self.calc_K_l()
         
         #Let take_step compute the tangent vector
         self.take_step(-dt, save_memory=save_memory, calc_Y_2s=calc_Y_2s, 
-- 
2.43.0


From 59fdffe6c6ed1ca965db7125c3f91f29db6076e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 093/100] fix: dissipative TDVP: expectation values of jump
 operators were computed from the previous state

---
 evoMPS/tdvp_gen.py      | 6 +++---
 evoMPS/tdvp_gen_diss.py | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 6ee190b..7f32e25 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -344,9 +344,6 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         C[n] depends on A[n] through A[n + self.ham_sites - 1].
         
         """
-        if self.ham is None:
-            return 0
-        
         if n_low < 1:
             n_low = 1
         if n_high < 1:
@@ -361,6 +358,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.AAA[n] = tm.calc_AAA_AA(self.AA[n], self.A[n + 2])
             else:
                 self.AAA.fill(None)
+                
+        if self.ham is None:
+            return 0
         
         for n in range(n_low, n_high + 1):
             if callable(self.ham):
diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 0b070b6..6bfbf71 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -93,12 +93,14 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         truncated : bool (only if auto_truncate == True)
             Whether truncation was performed.
         """
-        #Call the MPS method because we don't want to do the additional updates of EvoMPS_TDVP_Generic here.
-        return mps.EvoMPS_MPS_Generic.update(self, restore_CF=restore_CF, 
+        #Call the MPS method because we don't want to do all the additional updates of EvoMPS_TDVP_Generic here.
+        trunc = mps.EvoMPS_MPS_Generic.update(self, restore_CF=restore_CF, 
                                                     normalize=normalize,
                                                     auto_truncate=auto_truncate,
                                                     restore_CF_after_trunc=restore_CF_after_trunc)
-                                                        
+        #The expectation value methods use AA, AAA and C.
+        self.calc_C()
+        return trunc
         
     
     def take_step_dissipative(self, dt, save_memory=False, calc_Y_2s=False, 
-- 
2.43.0


From 3e11dd3e56377b90f6a1f73445360c534715afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 094/100] fix: evolve() could leave out the last step because
 of rounding

---
 evoMPS/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 2e11fcf..88b9904 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -12,7 +12,7 @@ import scipy.integrate as intg
 def evolve(sys, t, dt=0.01, integ="euler",
     dynexp=True, D_max=128, dD_max=128, sv_tol=1e-14, cb_func=None,
     auto_truncate=True):
-    num_steps = int(t / dt)
+    num_steps = int(round(t / dt, 9)) #E.g. 0.3 / 0.1 is slightly less than 3.
     for i in range(num_steps + 1):
         sys.update(auto_truncate=auto_truncate)
         B = sys.calc_B()
-- 
2.43.0


From 17f584e9a409a75373e517ad1aecfb34e39ce016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 095/100] fix: evolve() with RK4 and dynamical expansion failed
 for uniform states

---
 evoMPS/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 88b9904..442da24 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -31,7 +31,7 @@ def evolve(sys, t, dt=0.01, integ="euler",
                 dt_e = dt**(5. / 2.)  # Do a small Euler step with an error of the same order as the RK4 step
                 dt_r = dt - dt_e
                 sys.take_step(dt_e * 1.j, B=B, dynexp=dynexp, D_max=D_max, dD_max=dD_max, sv_tol=sv_tol)
-                sys.update(restore_CF=auto_truncate, normalize=auto_truncate, auto_truncate=auto_truncate)
+                sys.update(restore_CF=auto_truncate, auto_truncate=auto_truncate)
                 sys.take_step_RK4(dt_r * 1.j)
             else:
                 sys.take_step_RK4(dt * 1.j, B_i=B)
-- 
2.43.0


From 6a9aa948e27c4d96415d2404aea517de8a071d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 096/100] fix: the ODE-solver drivers evolved backwards in time

---
 evoMPS/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 442da24..a7b9103 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -291,7 +291,7 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
                 B[n] = sp.zeros_like(s.A[n])
 
         Bvec = tensors_to_vec(B)
-        Bvec = 1.j * Bvec #real time evolution!
+        Bvec = -1.j * Bvec #real time evolution!
         return Bvec
 
     print("Init:")
@@ -345,7 +345,7 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
                 B[n] = sp.zeros_like(s.A[n])
 
         Bvec = tensors_to_vec(B)
-        Bvec = 1.j * Bvec #real time evolution!
+        Bvec = -1.j * Bvec #real time evolution!
         return Bvec
 
     print("Init:")
-- 
2.43.0


From 4177dbd79b21694ae74a1473bd6e74c28e89fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 097/100] fix: the ODE-solver drivers failed after the first
 step and mixed up gauges

---
 evoMPS/dynamics.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index a7b9103..c764d0e 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -278,13 +278,10 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
     def ifunc(t, y):
         #nonlocal is_first_call_in_step
         update_state_from_vec(s, y)
-        if is_first_call_in_step[0]:
-            s.update()
-            B = s.calc_B(set_eta=True)
-            is_first_call_in_step[0] = False
-        else:
-            s.update(restore_CF=False, normalize=False)
-            B = s.calc_B(set_eta=False)
+        #The canonical form must not be restored here, because B must belong to y.
+        s.update(restore_CF=False, normalize=False)
+        B = s.calc_B(set_eta=is_first_call_in_step[0])
+        is_first_call_in_step[0] = False
 
         for n in range(len(B)):
             if n > 0 and B[n] is None:
@@ -294,6 +291,8 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
         Bvec = -1.j * Bvec #real time evolution!
         return Bvec
 
+    s.update()
+
     print("Init:")
     igrtr = integrator(ifunc, 0.0, state_to_vec(s), Tmax, rtol=rtol, atol=atol)
     print("Init done: h_abs = %g" % igrtr.h_abs)
@@ -310,8 +309,11 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
             print("Stopping with status:", igrtr.status)
             break
 
-        is_first_call_in_step = True
+        is_first_call_in_step[0] = True
         igrtr.step()
+        update_state_from_vec(s, igrtr.y) #the last evaluation may have been elsewhere
+
+    s.update()
 
 def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
         callback=None, integrator="RK45", wrap_to_real=False, **kwargs):
@@ -332,13 +334,10 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
     def ifunc(t, y):
         #nonlocal is_first_call_in_step
         update_state_from_vec(s, y)
-        if is_first_call_in_step[0]:
-            s.update()
-            B = s.calc_B(set_eta=True)
-            is_first_call_in_step[0] = False
-        else:
-            s.update(restore_CF=False, normalize=False)
-            B = s.calc_B(set_eta=False)
+        #The canonical form must not be restored here, because B must belong to y.
+        s.update(restore_CF=False, normalize=False)
+        B = s.calc_B(set_eta=is_first_call_in_step[0])
+        is_first_call_in_step[0] = False
 
         for n in range(len(B)):
             if n > 0 and B[n] is None:
@@ -348,6 +347,8 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
         Bvec = -1.j * Bvec #real time evolution!
         return Bvec
 
+    s.update()
+
     print("Init:")
     if wrap_to_real:
         igrtr = intg.complex_ode(ifunc)
@@ -368,5 +369,8 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
             print("Stopping with status:", igrtr.get_return_code())
             break
 
-        is_first_call_in_step = True
-        igrtr.integrate(igrtr.t + dt)
\ No newline at end of file
+        is_first_call_in_step[0] = True
+        igrtr.integrate(igrtr.t + dt)
+        update_state_from_vec(s, igrtr.y) #the last evaluation may have been elsewhere
+
+    s.update()
-- 
2.43.0


From 76847b74b9aad45f49ec3ea40d70cda1162067e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 098/100] fix: evolve_scipy_ode_old: the default integrator
 does not exist for scipy.integrate.ode (falls back to a real one)

---
 evoMPS/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index c764d0e..72885eb 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -316,7 +316,7 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
     s.update()
 
 def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
-        callback=None, integrator="RK45", wrap_to_real=False, **kwargs):
+        callback=None, integrator="zvode", wrap_to_real=False, **kwargs):
     def state_to_vec(s):
         return sp.hstack([s.A[n].ravel() for n in range(1, s.N+1)])
 
-- 
2.43.0


From 47a774f275055ce24b89c50b9b7ba6e5f2135c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 099/100] fix: find_ground() never ended when the state could
 not be expanded to the requested bond dimension

---
 evoMPS/dynamics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 72885eb..5301413 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -67,6 +67,7 @@ def find_ground(sys, tol=1E-6, h_init=0.04, max_itr=10000,
                                        
         j += dj
         
+        D_prev = sys.D
         sys, dj, tau, dtau = opt_im_time(sys, tol=100, dtau_base=h_init, 
                                          max_itr=max_itr, cb_func=cb_wrap,
                                          expand_to_D=min(sys.D + expand_step, expand_to_D), 
@@ -74,6 +75,8 @@ def find_ground(sys, tol=1E-6, h_init=0.04, max_itr=10000,
                                          expand_tol=100)
 
         j += dj        
+        if sys.D <= D_prev:
+            break #There is nothing (left) to expand into.
         
     sys, dj, h0 = opt_conj_grad(sys, tol=tol, h_init=h_init, max_itr=max_itr, 
                                 cb_func=cb_wrap, **kwargs)
-- 
2.43.0


From 096c52979e60d9697024aeed19aefc7e84bcd89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 100/100] fix: the ODE-solver drivers reported trial states of
 the solver instead of the current state

---
 evoMPS/dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 5301413..2e5b3d6 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -301,6 +301,7 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
     print("Init done: h_abs = %g" % igrtr.h_abs)
     
     for i in range(max_steps):
+        update_state_from_vec(s, igrtr.y) #the last evaluation may have been elsewhere
         s.update() #Note: This changes the variables (without changing the physical state).
                    #      Should be ok as along as the integrator does not share variable info between steps.
                    #      The integrator does store y_old, but only uses it for dense_output.
@@ -314,8 +315,8 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
 
         is_first_call_in_step[0] = True
         igrtr.step()
-        update_state_from_vec(s, igrtr.y) #the last evaluation may have been elsewhere
 
+    update_state_from_vec(s, igrtr.y)
     s.update()
 
 def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
@@ -361,6 +362,7 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
     igrtr.set_initial_value(state_to_vec(s))
     
     for i in range(steps):
+        update_state_from_vec(s, igrtr.y) #the last evaluation may have been elsewhere
         s.update() #Note: This changes the variables (without changing the physical state).
                    #      Should be ok as along as the integrator does not share variable info between steps.
                    #      The integrator does store y_old, but only uses it for dense_output.
@@ -374,6 +376,6 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
 
         is_first_call_in_step[0] = True
         igrtr.integrate(igrtr.t + dt)
-        update_state_from_vec(s, igrtr.y) #the last evaluation may have been elsewhere
 
+    update_state_from_vec(s, igrtr.y)
     s.update()
-- 
2.43.0

