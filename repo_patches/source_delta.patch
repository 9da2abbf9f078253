From c0ee5d05b7863661ab1e90150f08bb4f916b0e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 01/91] fix: keep energy unit when mapping tight-binding model
 back to unit cell

---
 elphmod/el.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/el.py b/elphmod/el.py
index 4fe9485..7e7bd8f 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -414,6 +414,9 @@ class Model:
         el = Model()
         el.size = self.size // len(self.cells)
 
+        el.divide_ndegen = self.divide_ndegen
+        el.rydberg = self.rydberg
+
         if comm.rank == 0:
             const = dict()
 
-- 
2.43.0


From 15ec3c1ab17c2b717a226c0f38c8f7c31f0f5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 02/91] fix: set documented attribute N of interaction model
 for supercell

---
 elphmod/elel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index 9425112..3d9fee5 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -165,6 +165,7 @@ class Model:
         elel = Model()
 
         supercell = elphmod.bravais.supercell(N1, N2, N3)
+        elel.N = list(map(tuple, supercell[1]))
         elel.cells = supercell[-1]
 
         elel.size = len(elel.cells) * self.size
-- 
2.43.0


From 994afbb3195ff42df1db004f90567ea64dd52632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 03/91] fix: orientation of lattice and shared arrays when
 mapping phonons back to unit cell

---
 elphmod/ph.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0a7ba49..6982051 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -689,14 +689,12 @@ class Model:
         ph = Model()
         ph.size = self.size // len(self.cells)
         ph.nat = self.nat // len(self.cells)
-        ph.M = self.M[:ph.nat]
+        ph.M = self.M[:ph.nat].copy()
         ph.atom_order = self.atom_order[:ph.nat]
-        ph.r = self.r[:ph.nat]
+        ph.r = self.r[:ph.nat].copy()
 
-        B1 = np.cross(self.N[1], self.N[2])
-        B2 = np.cross(self.N[2], self.N[0])
-        B3 = np.cross(self.N[0], self.N[1])
-        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / len(self.cells)
+        N, _, (B1, B2, B3), _ = elphmod.bravais.supercell(*self.N)
+        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / N
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
@@ -716,12 +714,12 @@ class Model:
         if self.Z is None:
             ph.Z = None
         else:
-            ph.Z = self.Z[:ph.nat]
+            ph.Z = self.Z[:ph.nat].copy()
 
         if self.Q is None:
             ph.Q = None
         else:
-            ph.Q = self.Q[:ph.nat]
+            ph.Q = self.Q[:ph.nat].copy()
 
         if self.lr:
             ph.prepare_long_range()
-- 
2.43.0


From c08ae784c532a6f77914e675a8f2eba8752185dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 04/91] fix: map back to unit cell at origin, which is not the
 first for some supercells

---
 elphmod/el.py |  5 ++++-
 elphmod/ph.py | 17 +++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 7e7bd8f..feefd62 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -414,6 +414,9 @@ class Model:
         el = Model()
         el.size = self.size // len(self.cells)
 
+        origin = self.cells.index((0, 0, 0))
+        bands = slice(origin * el.size, (origin + 1) * el.size)
+
         el.divide_ndegen = self.divide_ndegen
         el.rydberg = self.rydberg
 
@@ -425,7 +428,7 @@ class Model:
 
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    t = self.data[n, :el.size, i * el.size:(i + 1) * el.size]
+                    t = self.data[n, bands, i * el.size:(i + 1) * el.size]
 
                     if np.any(t != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 6982051..2fb3e04 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -689,9 +689,14 @@ class Model:
         ph = Model()
         ph.size = self.size // len(self.cells)
         ph.nat = self.nat // len(self.cells)
-        ph.M = self.M[:ph.nat].copy()
-        ph.atom_order = self.atom_order[:ph.nat]
-        ph.r = self.r[:ph.nat].copy()
+
+        origin = self.cells.index((0, 0, 0))
+        atoms = group(origin, ph.nat)
+        bands = group(origin, ph.size)
+
+        ph.M = self.M[atoms].copy()
+        ph.atom_order = self.atom_order[atoms]
+        ph.r = self.r[atoms].copy()
 
         N, _, (B1, B2, B3), _ = elphmod.bravais.supercell(*self.N)
         ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / N
@@ -714,12 +719,12 @@ class Model:
         if self.Z is None:
             ph.Z = None
         else:
-            ph.Z = self.Z[:ph.nat].copy()
+            ph.Z = self.Z[atoms].copy()
 
         if self.Q is None:
             ph.Q = None
         else:
-            ph.Q = self.Q[:ph.nat].copy()
+            ph.Q = self.Q[atoms].copy()
 
         if self.lr:
             ph.prepare_long_range()
@@ -732,7 +737,7 @@ class Model:
 
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    C = self.data[n, :ph.size, i * ph.size:(i + 1) * ph.size]
+                    C = self.data[n, bands, i * ph.size:(i + 1) * ph.size]
 
                     if np.any(C != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-- 
2.43.0


From b03f99a139d167aed3a5418100522aef16bda260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 05/91] fix: include all relevant reciprocal lattice vectors
 for skewed unit cells

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 2fb3e04..f4c8d83 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -373,7 +373,7 @@ class Model:
         self.scale = 4 * self.alpha * (2 * np.pi / a) ** 2
 
         nr = 1 + (np.sqrt(self.scale * G_max)
-            / np.linalg.norm(2 * np.pi * self.b, axis=1)).astype(int)
+            * np.linalg.norm(self.a, axis=1) / (2 * np.pi)).astype(int)
 
         if self.lr2d or G_2d:
             nr[2] = 0
-- 
2.43.0


From 746df09be2eecc14099ffee4ab609a665382207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 06/91] fix: long-range coupling of orbitals in different unit
 cells of supercell

---
 elphmod/elph.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0d8b5b5..ab7797a 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -143,10 +143,10 @@ class Model:
             comm.Allreduce(my_g, self.gq)
 
             if self.ph.lr:
-                g_lr = self.g_lr(q1, q2, q3)
+                g_lr = self.g_lr_orbitals(q1, q2, q3)
 
                 for a in range(self.el.size):
-                    self.gq[:, self.Rk0, a, a] += g_lr
+                    self.gq[:, self.Rk0, a, a] += g_lr[:, a]
 
         Rl, Ru = elphmod.MPI.distribute(nRk, bounds=True,
             comm=comm)[1][comm.rank:comm.rank + 2]
@@ -202,6 +202,32 @@ class Model:
 
         return np.einsum('g,gi->i', factor, vector)
 
+    def g_lr_orbitals(self, q1=0, q2=0, q3=0):
+        """Calculate long-range part of coupling for all electronic orbitals.
+
+        All orbitals of the same unit cell experience the same potential. If the
+        model describes a supercell, the different unit cells are related by
+        translations.
+        """
+        g_lr = self.g_lr(q1, q2, q3).reshape((len(self.cells), -1))
+        g = np.empty((*g_lr.shape, len(self.cells)), dtype=complex)
+
+        if len(self.cells) == 1:
+            g[:, :, 0] = g_lr
+        else:
+            q = np.array([q1, q2, q3])
+
+            supercell = elphmod.bravais.supercell(*self.ph.N)
+
+            for a, A in enumerate(np.array(self.cells)):
+                for x, X in enumerate(np.array(self.cells)):
+                    R, r = elphmod.bravais.to_supercell(X - A, supercell)
+
+                    g[x, :, a] = g_lr[r] * np.exp(-1j * q.dot(R))
+
+        return np.repeat(g.reshape((self.ph.size, len(self.cells))),
+            self.el.size // len(self.cells), axis=1)
+
     def gR(self, Rq1=0, Rq2=0, Rq3=0, Rk1=0, Rk2=0, Rk3=0):
         """Get electron-phonon matrix elements for arbitrary lattice vectors.
 
@@ -433,8 +459,8 @@ class Model:
             elph.gs = [sparse_array((elph.el.size, elph.el.size))
                 for x in range(elph.ph.size)]
 
-            if elph.ph.lr:
-                g_lr = elph.g_lr().real
+            if elph.ph.lr and comm.rank == 0:
+                g_lr = elph.g_lr_orbitals().real
 
                 for x in range(elph.ph.size):
                     elph.gs[x].setdiag(g_lr[x])
-- 
2.43.0


From 9654f55fb19d0a0052c0d803aee440f274d170fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 07/91] fix: discard stale coupling at previous q point when
 data is changed

---
 elphmod/elph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index ab7797a..1c97c50 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -140,6 +140,8 @@ class Model:
             # 1223  epmatwp(:, :, :, :, ir) = epmatwp(:, :, :, :, ir)
             #           + cfac * epmatwe(:, :, :, :, iq)
 
+            self.gq = np.empty_like(my_g)
+
             comm.Allreduce(my_g, self.gq)
 
             if self.ph.lr:
@@ -734,6 +736,8 @@ class Model:
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
+        self.q = None
+
         comm.Barrier()
 
     def decay_epmate(self):
@@ -785,6 +789,7 @@ class Model:
 
         self.data = np.zeros_like(self.data[:0, :, :0, :, :])
         self.gq = np.zeros_like(self.gq[:, :0, :, :])
+        self.q = None
 
     def to_epmatwp(self, prefix):
         """Save coupling to *.epmatwp* and *.wigner* files.
@@ -1115,6 +1120,9 @@ def q2r(elph, nq, nk, g, r=None, divide_mass=True, shared_memory=False):
     if elph.node.rank == 0:
         elph.images.Bcast(elph.data.view(dtype=float))
 
+    elph.q = None
+    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
+
     comm.Barrier()
 
 def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
-- 
2.43.0


From 727e31178d139683ec380c2444806da6fd080656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 08/91] fix: shape of electronic lattice vectors when
 symmetrizing coupling

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 1c97c50..9494d15 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -652,7 +652,7 @@ class Model:
         if nk <= len(self.Rk):
             self.Rk = self.Rk[:nk]
         else:
-            self.Rk = np.empty((ng, 3), dtype=int)
+            self.Rk = np.empty((nk, 3), dtype=int)
 
         shape = ng, self.ph.size, nk, self.el.size, self.el.size
 
-- 
2.43.0


From c229bfbe66b4acc04aab636ac78203a57cd1f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 09/91] fix: do not overwrite coupling passed by user when
 calculating its square

---
 elphmod/elph.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 9494d15..ab0bb37 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -936,8 +936,7 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
                             gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                         if squared:
-                            gqk *= gqk.conj()
-                            gqk = gqk.real
+                            gqk = abs(gqk) ** 2
 
                         my_g[my_iq, :, K1, K2, K3, :, :] = gqk
 
@@ -1019,8 +1018,7 @@ def transform(g, q, nk, U=None, u=None, squared=False, broadcast=True,
                     gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                 if squared:
-                    gqk *= gqk.conj()
-                    gqk = gqk.real
+                    gqk = abs(gqk) ** 2
 
                 my_g[my_iq, :, k1, k2, :, :] = gqk
 
-- 
2.43.0


From 8dfd557a870a14661719e67675bb75e5536f6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 10/91] fix: clear coupling that has not been evaluated yet

---
 elphmod/elph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index ab0bb37..b29145d 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -788,7 +788,8 @@ class Model:
         self.Rg = np.zeros_like(self.Rg[:0, :])
 
         self.data = np.zeros_like(self.data[:0, :, :0, :, :])
-        self.gq = np.zeros_like(self.gq[:, :0, :, :])
+        self.gq = np.zeros((self.ph.size, 0, self.el.size, self.el.size),
+            dtype=complex)
         self.q = None
 
     def to_epmatwp(self, prefix):
-- 
2.43.0


From 7a56c2d5f9e36b3fdda3927382c5b760db5bd32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 11/91] fix: scalar number of q points for dynamical matrices
 on full mesh

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index f4c8d83..7508870 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1930,7 +1930,7 @@ def q2r(ph, D_irr=None, q_irr=None, nq=None, D_full=None, angle=60,
     if nq is None:
         nq = D_full.shape[:-2]
     elif not hasattr(nq, '__len__'):
-        nq = (nq,) * len(q_irr[0])
+        nq = (nq,) * (D_full.ndim - 2)
 
     nq_orig = tuple(nq)
     nq = np.ones(3, dtype=int)
-- 
2.43.0


From 4733bcabfbed33b7f0aee1482ffa16c2f7dd9c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 12/91] fix: keep shape of lattice data when standardizing
 model without nonzero elements

---
 elphmod/el.py   | 5 +++--
 elphmod/elel.py | 5 +++--
 elphmod/ph.py   | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index feefd62..3ecc76f 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -565,8 +565,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells],
+                dtype=complex).reshape((-1, *self.data.shape[1:]))
 
             if symmetrize:
                 self.data /= 2
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 3d9fee5..0e2691d 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -250,8 +250,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells],
+                dtype=complex).reshape((-1, *self.data.shape[1:]))
         else:
             count = None
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 7508870..a4e6b48 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -885,8 +885,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells],
+                dtype=float).reshape((-1, *self.data.shape[1:]))
 
             if symmetrize:
                 self.data /= 2
-- 
2.43.0


From 00753116493ee8280d847e53c74629d76f51bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 13/91] fix: do not move atoms of other models when shifting
 atoms across unit-cell boundary

---
 elphmod/ph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index a4e6b48..512f695 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -839,6 +839,7 @@ class Model:
 
         self.standardize()
 
+        self.r = np.array(self.r, dtype=float)
         self.r[s] += np.dot(S, self.a)
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From 53e264d5baaab5c446e39c317c62871addff09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 14/91] fix: do not modify data of copied models when
 standardizing model with threshold

---
 elphmod/el.py   | 3 ++-
 elphmod/elel.py | 3 ++-
 elphmod/ph.py   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 3ecc76f..1ecb6f0 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -536,7 +536,8 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data[abs(self.data) < eps * abs(self.data).max()] = 0.0
+                self.data = np.where(
+                    abs(self.data) < eps * abs(self.data).max(), 0.0, self.data)
 
             const = dict()
 
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 0e2691d..c9c9592 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -229,7 +229,8 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data[abs(self.data) < eps * abs(self.data).max()] = 0.0
+                self.data = np.where(
+                    abs(self.data) < eps * abs(self.data).max(), 0.0, self.data)
 
             const = dict()
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 512f695..1b08607 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -857,7 +857,8 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data[abs(self.data) < eps * abs(self.data).max()] = 0.0
+                self.data = np.where(
+                    abs(self.data) < eps * abs(self.data).max(), 0.0, self.data)
 
             const = dict()
 
-- 
2.43.0


From d33311d6e2fc794ebf96fbc9a80176fdead1ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 15/91] fix: allow for threshold when standardizing empty model

---
 elphmod/el.py   | 5 +++--
 elphmod/elel.py | 5 +++--
 elphmod/elph.py | 3 ++-
 elphmod/ph.py   | 5 +++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 1ecb6f0..9d8b0cd 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -536,8 +536,9 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data = np.where(
-                    abs(self.data) < eps * abs(self.data).max(), 0.0, self.data)
+                size = abs(self.data)
+                self.data = np.where(size < eps * size.max(initial=0.0),
+                    0.0, self.data)
 
             const = dict()
 
diff --git a/elphmod/elel.py b/elphmod/elel.py
index c9c9592..b4bc2ce 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -229,8 +229,9 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data = np.where(
-                    abs(self.data) < eps * abs(self.data).max(), 0.0, self.data)
+                size = abs(self.data)
+                self.data = np.where(size < eps * size.max(initial=0.0),
+                    0.0, self.data)
 
             const = dict()
 
diff --git a/elphmod/elph.py b/elphmod/elph.py
index b29145d..e014e93 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -601,7 +601,8 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data[abs(self.data) < eps * abs(self.data).max()] = 0.0
+                size = abs(self.data)
+                self.data[size < eps * size.max(initial=0.0)] = 0.0
 
             const = dict()
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 1b08607..7c5b291 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -857,8 +857,9 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data = np.where(
-                    abs(self.data) < eps * abs(self.data).max(), 0.0, self.data)
+                size = abs(self.data)
+                self.data = np.where(size < eps * size.max(initial=0.0),
+                    0.0, self.data)
 
             const = dict()
 
-- 
2.43.0


From 03ce144d291ed283b581be1c65787924a8fb51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 16/91] fix: decay of force constants for models other than
 those just read or interpolated

---
 elphmod/ph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 7c5b291..b67aab4 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -921,7 +921,9 @@ class Model:
         ndarray
             Frobenius norm of force-constant matrices.
         """
-        l = self.l.flatten()
+        l = np.linalg.norm(np.dot(self.R, self.a)[:, np.newaxis, np.newaxis, :]
+            + self.r[np.newaxis, :, :] - self.r[:, np.newaxis, :],
+            axis=3).flatten()
         C = np.linalg.norm(self.data.reshape((len(self.R),
             self.nat, 3, self.nat, 3)), ord='fro', axis=(2, 4)).flatten()
 
-- 
2.43.0


From 85e69e46e3ae3a2e8782580fedd5e7899c2d44ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 17/91] fix: complete set of images for Voronoi cells shifted
 by more than one mesh point

---
 elphmod/bravais.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 87c9771..1a1d5f7 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1051,8 +1051,11 @@ def to_Voronoi(k1, k2, nk, angle=60, dk1=0, dk2=0, epsilon=0.0):
     set
         All equivalent point within or on the edge of the Voronoi cell.
     """
-    k1 %= nk
-    k2 %= nk
+    DK1 = int(round(dk1))
+    DK2 = int(round(dk2))
+
+    k1 = (k1 - DK1) % nk + DK1
+    k2 = (k2 - DK2) % nk + DK2
 
     images = [(k1, k2), (k1 - nk, k2), (k1, k2 - nk), (k1 - nk, k2 - nk)]
 
-- 
2.43.0


From 0e5281944b476e664902ce1b408011c1c04e1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 18/91] fix: rotation sum rule must refer to direction in which
 rotated atoms move

---
 elphmod/ph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index b67aab4..5c5b265 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1708,9 +1708,9 @@ def sum_rule_correction(ph, asr=True, rsr=True, eps=1e-15, report=True):
                         S = 0.0
                         for n in range(len(R)):
                             for l in range(ph.nat):
-                                S += (C[n, k, x1, l, y]
+                                S += (C[n, k, y, l, x1]
                                     * (R[n, x2] + ph.r[l, x2]))
-                                S -= (C[n, k, x2, l, y]
+                                S -= (C[n, k, y, l, x2]
                                     * (R[n, x1] + ph.r[l, x1]))
                         zero += abs(S)
         return zero
@@ -1752,8 +1752,8 @@ def sum_rule_correction(ph, asr=True, rsr=True, eps=1e-15, report=True):
                         c.append(np.zeros_like(C))
                         for n in range(len(R)):
                             for l in range(ph.nat):
-                                c[-1][n, k, x1, l, y] += R[n, x2] + ph.r[l, x2]
-                                c[-1][n, k, x2, l, y] -= R[n, x1] + ph.r[l, x1]
+                                c[-1][n, k, y, l, x1] += R[n, x2] + ph.r[l, x2]
+                                c[-1][n, k, y, l, x2] -= R[n, x1] + ph.r[l, x1]
 
     # symmetrize constraints (the force constants must be symmetric):
 
-- 
2.43.0


From 2b1beba43d6f56adc29d65d3cbdb7ae1b078bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 19/91] fix: acoustic sum rule for electron-phonon coupling
 divided by atomic masses

---
 elphmod/elph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index e014e93..07939c2 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -714,6 +714,10 @@ class Model:
         if comm.rank == 0:
             shape = self.data.shape
 
+            if self.divide_mass:
+                self.data *= np.sqrt(np.repeat(self.ph.M, 3)).reshape(
+                    (-1, 1, 1, 1))
+
             self.data = self.data.reshape((len(self.Rg) * self.ph.nat, -1))
 
             zero = self.data.sum(axis=0)
@@ -734,6 +738,10 @@ class Model:
 
             self.data = self.data.reshape(shape)
 
+            if self.divide_mass:
+                self.data /= np.sqrt(np.repeat(self.ph.M, 3)).reshape(
+                    (-1, 1, 1, 1))
+
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
-- 
2.43.0


From 735d3283a006324d58e9f440bf6e7ccb27e04879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 20/91] fix: remember that coupling follows mass convention of
 polar phonon model

---
 elphmod/elph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 07939c2..e757c03 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -288,6 +288,9 @@ class Model:
         if epmatwp is None:
             return
 
+        if self.ph.lr:
+            self.divide_mass = self.ph.divide_mass
+
         if comm.rank == 0:
             with open(epmatwp, 'rb') as data:
                 status = elphmod.misc.StatusBar((self.data.nbytes > 1e9)
@@ -319,9 +322,8 @@ class Model:
             if self.ph.lr and self.ph.divide_mass != divide_mass:
                 print("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
                 print("The value from 'ph' (%r) is used." % self.ph.divide_mass)
-                divide_mass = self.ph.divide_mass
 
-            if divide_mass:
+            if self.divide_mass:
                 for x in range(ph.size):
                     self.data[:, x] /= np.sqrt(ph.M[x // 3])
 
-- 
2.43.0


From 73043af831bb542c2d54c718bd4be71017010193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 21/91] fix: make band order available to all processes in
 shared memory

---
 elphmod/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index fc36400..55ce9fa 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -168,7 +168,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             dtype=int, **memory)
 
         if comm.rank == 0:
-            o = band_order(v, V, **order_kwargs)
+            o[...] = band_order(v, V, **order_kwargs)
 
             for point in range(points):
                 v[point] = v[point, o[point]]
-- 
2.43.0


From f3dc7d57462fbbbcced4dc9be3039494ec367c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:10 +0000
Subject: [PATCH 22/91] fix: alignment of phonon eigenvectors with wave vector

---
 elphmod/dispersion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 55ce9fa..17fec81 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -123,8 +123,8 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             # rotate phonon eigenvectors by negative angle of k point:
 
             if rotate:
-                k1, k2 = elphmod.bravais.to_Voronoi(*my_k[point, :2],
-                    nk=2 * np.pi, angle=angle)[0]
+                k1, k2 = min(elphmod.bravais.to_Voronoi(*my_k[point, :2],
+                    nk=2 * np.pi, angle=angle))
 
                 x, y = k1 * b1 + k2 * b2
                 phi = np.arctan2(y, x)
@@ -133,7 +133,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
 
                 for atom in range(atoms):
                     for band in range(bands):
-                        xy = point, [atom, atom + atoms], band
+                        xy = point, [3 * atom, 3 * atom + 1], band
                         my_V[xy] = elphmod.bravais.rotate(my_V[xy], -phi)
         else:
             if bands == 1:
-- 
2.43.0


From f953cceb168ffd20562220c6c5cd9b783f1cea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 23/91] fix: interpolation of multi-component data

---
 elphmod/bravais.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 1a1d5f7..b1b23da 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -932,7 +932,31 @@ def linear_interpolation(data, angle=60, axes=(0, 1), period=None, polar=False):
 
     # make interpolant function applicable to arrays and return:
 
-    return np.vectorize(interpolant)
+    return vectorize(interpolant, len(axes), data.ndim - len(axes))
+
+def vectorize(function, nargs, ndim):
+    """Make function of scalars that may return arrays applicable to arrays.
+
+    Parameters
+    ----------
+    function : function
+        Function of scalars.
+    nargs : int
+        Number of arguments.
+    ndim : int
+        Number of dimensions of result for scalar arguments.
+
+    Returns
+    -------
+    function
+        Vectorized function. The last axes of its result are those of the result
+        of `function`.
+    """
+    if ndim == 0:
+        return np.vectorize(function)
+
+    return np.vectorize(function, signature='%s->(%s)' % (
+        ','.join(['()'] * nargs), ','.join('d%d' % n for n in range(ndim))))
 
 def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         periodic=True):
@@ -1485,7 +1509,7 @@ def Fourier_interpolation(data, angle=60, sign=-1, function=True):
         return np.dot(np.exp(idphi * np.dot(points, point)), values).real
 
     if function:
-        return np.vectorize(interpolant)
+        return vectorize(interpolant, 2, data.ndim - 2)
 
     # return either interpolation function or parameter dictionary:
 
-- 
2.43.0


From 4b10ea6bafecd49a35fd4c9c1a2b6f73b9a3df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 24/91] fix: do not truncate interpolated values when resizing
 integer data

---
 elphmod/bravais.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index b1b23da..467923e 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -999,11 +999,13 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
 
     # apply interpolation function at new lattice points in parallel:
 
+    dtype = np.result_type(data.dtype, 1.0)
+
     size = np.prod(shape)
     sizes, bounds = elphmod.MPI.distribute(size, bounds=True)
 
     my_new_data = np.empty((sizes[comm.rank], *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     if periodic:
         scale = np.divide(data.shape[:len(shape)], shape)
@@ -1017,7 +1019,7 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         my_new_data[n] = interpolant(*np.multiply(m, scale))
 
     new_data = np.empty((*shape, *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     comm.Allgatherv(my_new_data,
         (new_data, sizes * np.prod(data.shape[len(shape):], dtype=int)))
-- 
2.43.0


From 183c079cc6d3138f9ddd6d9fbefda88850ae9d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 25/91] fix: do not modify crystallographic constants passed by
 user

---
 elphmod/bravais.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 467923e..8e5e9de 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -93,6 +93,8 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
 
         elif ibrav in {-5, 5, 12, 13}:
             celldm[3] = cosab
+    else:
+        celldm = np.array(celldm, dtype=float)
 
     if not bohr:
         celldm[0] *= elphmod.misc.a0
@@ -101,7 +103,7 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
         if r_cell is None or cell_units is None:
             info('ibrav=0 requires r_cell and cell_units!', error=True)
 
-        a = np.array(r_cell)
+        a = np.array(r_cell, dtype=float)
 
         if 'alat' in cell_units.lower():
             a *= celldm[0]
-- 
2.43.0


From 942c2804ddf1f2123af0a674c9d2be91ea590be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 26/91] fix: size of outline of square Brillouin zone

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 8e5e9de..67ea46f 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1816,7 +1816,7 @@ def BZ(angle=120, angle0=0):
 
     elif angle == 90:
         M = [(1, 1), (-1, 1), (-1, -1), (1, -1), (1, 1)]
-        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M])
+        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M]) / 2
 
     elif angle == 120:
         K = [(1, 1), (-1, 2), (-2, 1), (-1, -1), (1, -2), (2, -1), (1, 1)]
-- 
2.43.0


From d89f645a8d17fb774784925df36eb59260c67ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 27/91] fix: test whether point is on path with out-of-plane
 component

---
 elphmod/bravais.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 67ea46f..eb1f177 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2610,8 +2610,7 @@ def point_on_path(test_point, point_A, point_B, eps=1e-14):
         dot = np.dot(point_B - point_A, test_point - point_A)
 
         if dot >= 0:
-            squared_distance = (
-                (point_B - point_A)[0] ** 2 + (point_B - point_A)[1] ** 2)
+            squared_distance = np.dot(point_B - point_A, point_B - point_A)
 
             if dot <= squared_distance:
                 #'The test point is between A and B'
-- 
2.43.0


From c8d94e40b7db66ed0d4d04c7c00514e5d602eba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 28/91] fix: delta function of complex argument with negative
 real part

---
 elphmod/occupations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index 85aa34f..cf66196 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -36,7 +36,7 @@ def fermi_dirac_delta(x):
     """Calculate negative derivative of Fermi function."""
 
     x = np.array(x)
-    x.real = np.minimum(abs(x.real), xmax)
+    x.real = np.sign(x.real) * np.minimum(abs(x.real), xmax)
 
     return 1 / (2 * np.cosh(x) + 2)
 
-- 
2.43.0


From a97c194b5c68ccda73b13ff2b56421a56e418b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 29/91] fix: derivatives of Heaviside function for integer
 arguments

---
 elphmod/occupations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index cf66196..941acad 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -301,7 +301,7 @@ def heaviside(x):
 def heaviside_delta(x):
     """Calculate negative derivative of (reflected) Heaviside function."""
 
-    delta = np.copy(x)
+    delta = np.array(x, dtype=float)
 
     zero = delta == 0
 
@@ -313,7 +313,7 @@ def heaviside_delta(x):
 def heaviside_delta_prime(x):
     """Calculate negative 2nd derivative of (reflected) Heaviside function."""
 
-    delta_prime = np.copy(x)
+    delta_prime = np.array(x, dtype=float)
 
     zero = delta_prime == 0
 
-- 
2.43.0


From 6454013251a527c8b071ffe034528ad684b8ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:18 +0000
Subject: [PATCH 30/91] fix: convergence of Fermi level for smearing functions
 with several steps

---
 elphmod/occupations.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index 941acad..7ff12de 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -431,7 +431,10 @@ def find_Fermi_level(n, e, kT=0.025, f='fd', mu=None, tol=1e-5, eps=1e-10):
     if mu is None:
         mu = (e.min() * (e.size - n) + e.max() * n) / e.size
 
-    # solve fixed-point equation:
+    # solve fixed-point equation (with bisection as a safeguard):
+
+    lower = -np.inf
+    upper = np.inf
 
     while True:
         xi = e - mu
@@ -446,8 +449,16 @@ def find_Fermi_level(n, e, kT=0.025, f='fd', mu=None, tol=1e-5, eps=1e-10):
         if abs(fx.sum() - n) < tol:
             return mu
 
+        if fx.sum() < n:
+            lower = mu
+        else:
+            upper = mu
+
         mu = (n - e.size * f0 + (e * w).sum()) / w.sum()
 
+        if not lower < mu < upper and np.isfinite([lower, upper]).all():
+            mu = 0.5 * (lower + upper)
+
 def find_Fermi_level_simple(n, e, kT=0.025, f='fd', mu=None, tol=1e-5,
         damp=1e-2):
     """Determine chemical potential via simple fixed-point iteration.
-- 
2.43.0


From 194d5ded459d9fcefc090a2febe736d1f98fcce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:35 +0000
Subject: [PATCH 31/91] fix: isoline along edge of triangle

---
 elphmod/dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 431dc7d..5d5bf68 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -349,7 +349,7 @@ def isoline(energies):
 
             elif B <= E < C:
                 if E == A == B:
-                    my_points.extend((tuple(i), (j)))
+                    my_points.append((tuple(i), tuple(j)))
                 else:
                     alpha = (E - B) / (C - B)
                     beta = (E - A) / (C - A)
-- 
2.43.0


From daf124bd21212183d325423cf813309b6dd04a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 32/91] fix: do not count intersections at periodic boundary
 twice

---
 elphmod/dos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 5d5bf68..b34213a 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -275,6 +275,8 @@ def double_delta(x, y, f=None, eps=1e-7):
         unique = dict()
 
         if comm.rank == 0:
+            D[D > N - eps] -= N # equivalent points at periodic boundary
+
             for group in elphmod.misc.group(D, eps=eps):
                 d = np.average(D[group], axis=0)
                 w = np.average(W[group], axis=0)
-- 
2.43.0


From 9c8689261c05b4befb5293da41789592a45a719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 33/91] fix: do not miss intersections on edges of triangles
 because of rounding

---
 elphmod/dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index b34213a..d2e53a1 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -259,7 +259,7 @@ def double_delta(x, y, f=None, eps=1e-7):
             V = (A * z - z * a - A * c + C * a + z * c - C * z) / w # B = b = z
             W = (A * b - B * a - A * z + z * a + B * z - z * b) / w # C = c = z
 
-            if 0 <= U <= 1 and 0 <= V <= 1 and 0 <= W <= 1:
+            if min(U, V, W) >= -1e-3 * eps: # do not miss points on edges
                 my_D.append(U * X + V * Y + W * Z)
                 my_W.append(prefactor * (U * F + V * G + W * H) / abs(w))
 
-- 
2.43.0


From 3e3c018880ac70e6913ecd600c41f87e481f4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 34/91] fix: grand potential of states far below Fermi level

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5e96149..e78a73c 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -1086,7 +1086,7 @@ def grand_potential(e, kT=0.025, occupations='fd'):
     prefactor = 2 * kT / np.prod(e.shape[:-1])
 
     if occupations is elphmod.occupations.fermi_dirac: # faster alternative
-        return prefactor * np.log(occupations(-x)).sum()
+        return -prefactor * np.logaddexp(0.0, -x).sum()
 
     return prefactor * ((occupations(x) * x).sum()
         - occupations.entropy(x).sum()) # U - T S - mu N (where mu = 0)
-- 
2.43.0


From 328d7e27a0e47bd0d84c570882d9eb0bab4dec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 35/91] fix: renormalization of coupling beyond density-density
 terms

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index e78a73c..5a5da2c 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -822,7 +822,7 @@ def renormalize_coupling_orbital(q, e, g, W, U, **kwargs):
 
     g = g.copy()
 
-    while dg.ndim < g.ndim - 1 if dd else g.ndim:
+    while dg.ndim < (g.ndim - 1 if dd else g.ndim):
         dg = dg[:, :, np.newaxis]
 
     if dd:
-- 
2.43.0


From 445decc70b0aa13c8d2393251d3f2f8ca47e1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 36/91] fix: allow for list of q points as documented

---
 elphmod/diagrams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5a5da2c..538f380 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -593,8 +593,8 @@ def phonon_self_energy2(q, e, g2, kT=0.025, nmats=1000, hyb_width=1.0,
     my_Pi = np.empty((sizes[comm.rank], nmodes), dtype=complex)
 
     for my_iq, iq in enumerate(range(*bounds[comm.rank:comm.rank + 2])):
-        q1 = int(round(q[iq, 0] * scale)) % nk
-        q2 = int(round(q[iq, 1] * scale)) % nk
+        q1 = int(round(q[iq][0] * scale)) % nk
+        q2 = int(round(q[iq][1] * scale)) % nk
 
         Gk = G[:, :nk, :nk]
         Gkq = G[:, q1:q1 + nk, q2:q2 + nk]
-- 
2.43.0


From b048a7ef55ea5f55681ea0a7a5c5efeeb10bce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 37/91] fix: ignore contact interaction if coupling is absent
 as documented

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 538f380..b7a8c9e 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -462,7 +462,7 @@ def phonon_self_energy(q, e, g2=None, kT=0.025, eps=1e-10, omega=0.0,
 
             status.update()
 
-        if np.any(U != 0):
+        if g is not None and np.any(U != 0):
             axes = tuple(range(-5, -2))
 
             chi0 = prefactor * dfde.sum(axis=axes)
-- 
2.43.0


From a26dd8fc2bb83815a8291f2600748ea38b56a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 38/91] fix: sort disentangled bands by their average energy

---
 elphmod/dispersion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 17fec81..7af1820 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -499,7 +499,8 @@ def band_order(v, V, by_mean=True, dv=float('inf'), eps=1e-10, status=True):
             bar.update()
 
     if by_mean:
-        o[:] = o[:, sorted(range(bands), key=lambda i: v[:, o[:, i]].sum())]
+        o[:] = o[:, sorted(range(bands),
+            key=lambda i: v[range(points), o[:, i]].sum())]
 
     return o
 
-- 
2.43.0


From 644c4a691ef0d159c25bb57d7557e6971dbc0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:01 +0000
Subject: [PATCH 39/91] fix: do not modify displacements passed to free energy

---
 elphmod/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 318e200..34f9592 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -253,7 +253,7 @@ class Driver:
             t0 = time.time()
 
         if u is not None:
-            self.u = u
+            self.u = np.array(u, dtype=float)
 
         self.diagonalize()
 
-- 
2.43.0


From 33c83fe120c4309e56893f956772078e08bd5f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:01 +0000
Subject: [PATCH 40/91] fix: double Fermi-surface average for Hessian from
 dense matrices

---
 elphmod/md.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 34f9592..e3d2287 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -434,6 +434,16 @@ class Driver:
                 self.elph.ph.r + self.u.reshape(self.elph.ph.r.shape),
                 self.elph.ph.atom_order)
 
+        if kT is not None and not self.sparse:
+            g2dd, dd = elphmod.diagrams.double_fermi_surface_average(
+                self.q[:nq], self.e, self.d[:nq, :, np.newaxis].conj()
+                * self.d[:nq, np.newaxis], kT, self.f)
+
+            g2dd = g2dd.reshape(C.shape) / dd.sum()
+
+            if gamma_only:
+                g2dd = g2dd.real
+
         returns = C[0].real if gamma_only else C
 
         if kT is not None:
-- 
2.43.0


From 474ca62eab23d585541c13bd6f640f3aec4b8235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:29 +0000
Subject: [PATCH 41/91] fix: do not count long-range force constants twice

---
 elphmod/md.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index e3d2287..66e7230 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -163,7 +163,12 @@ class Driver:
             if unscreen:
                 self.elph.ph = copy.copy(self.elph.ph)
 
-                elphmod.ph.q2r(self.elph.ph, nq=self.nq, D_full=self.C0,
+                D = self.C0
+
+                if self.elph.ph.lr:
+                    D = D - elphmod.dispersion.sample(self.elph.ph.D_lr, self.q)
+
+                elphmod.ph.q2r(self.elph.ph, nq=self.nq, D_full=D,
                     divide_mass=False)
 
             elph = self.elph.supercell(*supercell, sparse=True)
@@ -511,12 +516,22 @@ class Driver:
         object
             Mass-spring model for the phonons.
         """
+        D = self.hessian(gamma_only=False)
+
         ph = copy.deepcopy(self.elph.ph)
-        ph.divide_mass = divide_mass
         ph.r += self.u.reshape((-1, 3))
 
-        elphmod.ph.q2r(ph, D_full=self.hessian(gamma_only=False), nq=self.nq,
-            divide_mass=False, **kwargs)
+        if ph.lr:
+            ph.prepare_long_range()
+
+            D = D - elphmod.dispersion.sample(ph.D_lr, self.q)
+
+        ph.divide_mass = divide_mass
+
+        if ph.lr:
+            ph.prepare_long_range()
+
+        elphmod.ph.q2r(ph, D_full=D, nq=self.nq, divide_mass=False, **kwargs)
 
         return ph
 
-- 
2.43.0


From a44e9ee78209495ae7abcd2ba4b8d40eff26bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:29 +0000
Subject: [PATCH 42/91] fix: photoexcited free energy and Hessian with two
 chemical potentials

---
 elphmod/md.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 66e7230..27ecc24 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -269,6 +269,10 @@ class Driver:
 
         E = prefactor * (self.f(self.e / self.kT) * self.e).sum() # E - mu N
         E += self.mu * self.n # mu N
+
+        if self.f is elphmod.occupations.two_fermi_dirac:
+            E += 2 * self.kT * self.f.d * self.nx # (mu_c - mu_v) N_x
+
         E -= prefactor * self.kT * self.f.entropy(self.e / self.kT).sum() # T S
 
         E += 0.5 * self.u.dot(self.C0[0].real).dot(self.u)
@@ -349,6 +353,14 @@ class Driver:
         """
         nq = 1 if gamma_only or self.sparse else len(self.q)
 
+        # bands with common chemical potential:
+
+        if self.f is elphmod.occupations.two_fermi_dirac:
+            nv = int(self.n) // 2
+            subsets = [slice(nv), slice(nv, None)]
+        else:
+            subsets = [slice(None)]
+
         if self.sparse:
             x = self.e / self.kT
             f = 2 * self.f(x)
@@ -360,7 +372,6 @@ class Driver:
 
             dfde = np.tile(d, (self.elph.el.size, 1))
             dfde[ok] = df[ok] / de[ok]
-            dos = -d.sum() # = -np.trace(dfde)
 
             if kT is not None:
                 tmp = d if kT == self.kT else self.f.delta(self.e / kT) / kT
@@ -373,9 +384,16 @@ class Driver:
 
             V = self.U.transpose().copy()
 
-            d_orb = self.U * d[np.newaxis] @ V
-            avg = np.array([self.d0[x].multiply(d_orb).sum()
-                for x in range(self.elph.ph.size)]) / np.sqrt(dos)
+            shift = np.zeros((self.elph.ph.size, self.elph.ph.size))
+
+            for bands in subsets:
+                d_orb = self.U[:, bands] * d[np.newaxis, bands] @ V[bands]
+                dos = -d[bands].sum() # = -np.trace(dfde)
+
+                avg = np.array([self.d0[x].multiply(d_orb).sum()
+                    for x in range(self.elph.ph.size)])
+
+                shift += np.outer(avg, avg) / dos
 
             status = elphmod.misc.StatusBar(self.elph.ph.size,
                 title='calculate static phonon self-energy')
@@ -389,7 +407,7 @@ class Driver:
                 gx = self.U @ (gx * dfde) @ V # overwriting gx to save memory
 
                 for y in range(x, self.elph.ph.size):
-                    C[0, x, y] = self.d0[y].multiply(gx).sum() + avg[x] * avg[y]
+                    C[0, x, y] = self.d0[y].multiply(gx).sum() + shift[x, y]
                     C[0, y, x] = C[0, x, y]
 
                     if kT is not None:
@@ -416,8 +434,10 @@ class Driver:
             C = elphmod.diagrams.phonon_self_energy(self.q[:nq], self.e,
                 g=self.d[:nq], kT=self.kT, occupations=self.f, eps=eps)
 
-            C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(self.e,
-                self.d[0], kT=self.kT, occupations=self.f)
+            for bands in subsets:
+                C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(
+                    self.e[..., bands], self.d[0][..., bands, bands],
+                    kT=self.kT, occupations=self.f)
 
         C += self.C0[:nq]
 
-- 
2.43.0


From 6fc28ff66dff13f43636d8f96500365ee57ac650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:29 +0000
Subject: [PATCH 43/91] fix: second derivative of free energy without density
 of states

---
 elphmod/diagrams.py | 6 +++++-
 elphmod/md.py       | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index b7a8c9e..f4a1a11 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -527,7 +527,11 @@ def phonon_self_energy_fermi_shift(e, g, kT=0.025, occupations='fd'):
     d = occupations.delta(x) / kT
 
     dos = d.sum()
-    avg = np.einsum('ijkn,xijknn->x', d, g) / dos
+
+    if not dos: # insulator
+        return np.zeros((len(g), len(g)))
+
+    avg = np.einsum('ijkn,xijknn->x', d / dos, g)
 
     return 2 / nk.prod() * dos * np.outer(avg, avg) # one complex conjugate?
 
diff --git a/elphmod/md.py b/elphmod/md.py
index 27ecc24..2da354f 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -393,7 +393,8 @@ class Driver:
                 avg = np.array([self.d0[x].multiply(d_orb).sum()
                     for x in range(self.elph.ph.size)])
 
-                shift += np.outer(avg, avg) / dos
+                if dos:
+                    shift += np.outer(avg, avg) / dos
 
             status = elphmod.misc.StatusBar(self.elph.ph.size,
                 title='calculate static phonon self-energy')
-- 
2.43.0


From 777572d1693637bcee9b48ab01a6086d6c14738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:06 +0000
Subject: [PATCH 44/91] fix: write NumPy scalars and lists to input files

---
 elphmod/bravais.py | 58 +++++++++++++++++++++++-----------------------
 elphmod/misc.py    | 22 ++++++++++++++++++
 2 files changed, 51 insertions(+), 29 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index eb1f177..d6768f8 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1946,7 +1946,7 @@ def write_pwi(pwi, struct):
         for key in ['title', 'prefix', 'outdir', 'pseudo_dir', 'calculation',
                 'tprnfor', 'tstress', 'nstep', 'forc_conv_thr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -1955,7 +1955,7 @@ def write_pwi(pwi, struct):
         if 'celldm' in struct:
             for i, celldm in enumerate(struct['celldm'], 1):
                 if celldm:
-                    data.write('celldm(%d) = %r\n' % (i, celldm))
+                    elphmod.misc.write_item(data, 'celldm(%d)' % i, celldm)
 
         for key in ['ibrav', 'ntyp', 'nat', 'a', 'b', 'c', 'cosbc', 'cosac',
                 'cosab', 'ecutwfc', 'ecutrho', 'nbnd', 'occupations',
@@ -1964,7 +1964,7 @@ def write_pwi(pwi, struct):
                 'tot_magnetization', 'starting_magnetization', 'space_group',
                 'uniqueb', 'origin_choice', 'rhombohedral']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -1974,7 +1974,7 @@ def write_pwi(pwi, struct):
                 'diago_full_acc', 'mixing_beta', 'startingpot', 'startingwfc',
                 'scf_must_converge']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -1983,7 +1983,7 @@ def write_pwi(pwi, struct):
 
             for key in ['ion_dynamics', 'upscale']:
                 if key in struct:
-                    data.write('%s = %r\n' % (key, struct[key]))
+                    elphmod.misc.write_item(data, key, struct[key])
 
             data.write('/\n')
 
@@ -1993,7 +1993,7 @@ def write_pwi(pwi, struct):
                 for key in ['cell_dynamics', 'cell_dofree', 'press',
                         'press_conv_thr']:
                     if key in struct:
-                        data.write('%s = %r\n' % (key, struct[key]))
+                        elphmod.misc.write_item(data, key, struct[key])
 
                 data.write('/\n')
 
@@ -2189,14 +2189,14 @@ def write_win(win, struct):
     with open(win, 'w') as data:
         for key in ['num_bands', 'num_wann']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
@@ -2210,13 +2210,13 @@ def write_win(win, struct):
 
         for key in ['write_hr', 'bands_plot']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['dis_num_iter', 'num_iter', 'search_shells']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
@@ -2285,26 +2285,26 @@ def write_ph(ph, struct):
 
         for key in ['prefix', 'outdir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['fildyn', 'fildvscf']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['ldisp', 'nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['tr2_ph', 'alpha_mix', 'cdfpt', 'subspace',
                 'cdfpt_bnd', 'cdfpt_orb']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -2341,7 +2341,7 @@ def write_q2r(q2r, struct):
 
         for key in ['fildyn', 'flfrc', 'zasr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -2401,7 +2401,7 @@ def write_matdyn(matdyn, struct):
         for key in ['flfrc', 'flfrq', 'fldos', 'fleig', 'flvec', 'asr',
                 'loto_2d', 'q_in_band_form', 'q_in_cryst_coord']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
         data.write('%d\n' % struct['nq'])
@@ -2470,80 +2470,80 @@ def write_epw(epw, struct):
 
         for key in ['prefix', 'outdir', 'dvscf_dir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['wannierize', 'elph']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['epbwrite', 'epwwrite']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['epbread', 'epwread']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['use_ws', 'nbndsub', 'bands_skipped']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         if 'proj' in struct:
             for n, value in enumerate(struct['proj'], 1):
                 if value:
-                    data.write('proj(%d) = %r\n' % (n, value))
+                    elphmod.misc.write_item(data, 'proj(%d)' % n, value)
 
         data.write('\n')
 
         for key in ['num_iter']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         if 'wdata' in struct:
             for n, value in enumerate(struct['wdata'], 1):
                 if value:
-                    data.write('wdata(%d) = %r\n' % (n, value))
+                    elphmod.misc.write_item(data, 'wdata(%d)' % n, value)
 
         data.write('\n')
 
         for key in ['nk1', 'nk2', 'nk3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['nkf1', 'nkf2', 'nkf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['nqf1', 'nqf2', 'nqf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/')
         data.write('\n')
diff --git a/elphmod/misc.py b/elphmod/misc.py
index d7a9a6e..c267a1d 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -601,6 +601,28 @@ def read_namelists(filename):
 
     return data
 
+def write_item(data, key, value):
+    """Write item of Fortran namelist.
+
+    Parameters
+    ----------
+    data : file object
+        Open file.
+    key : str
+        Name of the item.
+    value : object
+        Value of the item. The elements of lists are written separately.
+    """
+    if isinstance(value, (list, tuple, np.ndarray)):
+        for n, item in enumerate(value, 1):
+            if item is not None:
+                write_item(data, '%s(%d)' % (key, n), item)
+    else:
+        if isinstance(value, np.generic):
+            value = value.item()
+
+        data.write('%s = %r\n' % (key, value))
+
 def read_input_data(filename, broadcast=True):
     """Read Quantum ESPRESSO input data.
 
-- 
2.43.0


From 5e7e65bf5b7086e820179c86aa38a4ff4f94375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 45/91] fix: save driver based on sparse matrices

---
 elphmod/md.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 2da354f..93c43aa 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -879,25 +879,15 @@ class Driver:
         interactive = self.interactive
         self.interactive = False
 
-        comms = self.node, self.images
-
-        del self.node
-        del self.images
-
-        if not self.sparse:
-            elph_comms = self.elph.node, self.elph.images
-
-            del self.elph.node
-            del self.elph.images
+        comms = [(obj, key, vars(obj).pop(key)) for obj in [self, self.elph]
+            for key in ['node', 'images'] if key in vars(obj)]
 
         elphmod.MPI.Buffer(filename).set(self)
 
         self.interactive = interactive
 
-        self.node, self.images = comms
-
-        if not self.sparse:
-            self.elph.node, self.elph.images = elph_comms
+        for obj, key, value in comms:
+            setattr(obj, key, value)
 
     @staticmethod
     def load(filename):
-- 
2.43.0


From 59911c5d743f730d7df9aca5ec2587c953247d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 46/91] fix: do not truncate atomic labels in force-constants
 files

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 5c5b265..6bd1d11 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1175,7 +1175,7 @@ def read_flfrc(flfrc):
         for nt in range(ntyp):
             tmp = cells()
 
-            atm.append(tmp[1][1:3])
+            atm.append(' '.join(tmp).split("'")[1].strip())
             amass[nt] = float(tmp[-1])
 
         # read types and positions of individual atoms:
-- 
2.43.0


From 4ecf808c913bc38f526865cebc29f827c056670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 47/91] fix: order of components of Born effective charges in
 XML files

---
 elphmod/ph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 6bd1d11..f2a85e1 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1516,6 +1516,8 @@ def read_flfrc_xml(flfrc):
         zeu = np.reshape([list(map(float, zeu.find('Z_AT_.%d'
             % (na + 1)).text.split())) for na in range(nat)], (nat, 3, 3))
 
+        zeu = zeu.transpose(0, 2, 1).copy() # column-major order
+
     ifc = root.find('INTERATOMIC_FORCE_CONSTANTS')
 
     if ifc is not None:
-- 
2.43.0


From a796165298e8ca70d4d088eb56338e6406974fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 48/91] fix: remove whitespace from atomic labels in XML files

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index f2a85e1..6bcfed7 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1482,7 +1482,7 @@ def read_flfrc_xml(flfrc):
     amass = np.empty(ntyp)
 
     for nt in range(ntyp):
-        atm.append(geometry.find('TYPE_NAME.%d' % (nt + 1)).text)
+        atm.append(geometry.find('TYPE_NAME.%d' % (nt + 1)).text.strip())
         amass[nt] = float(geometry.find('MASS.%d' % (nt + 1)).text)
 
     ityp = np.empty(nat, dtype=int)
-- 
2.43.0


From 683fc96a4c1ffb89e5f279ded7373810157057fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:16 +0000
Subject: [PATCH 49/91] fix: separate columns of Wannier Hamiltonian file

---
 elphmod/el.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 9d8b0cd..e9061f3 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -744,7 +744,7 @@ def write_hrdat(seedname, R, H, ndegen=None):
             if not n % columns or n == len(R):
                 hr.write('\n')
 
-        form = '%5d' * 5 + '%12.6f' * 2 + '\n'
+        form = '%5d' * 5 + ' %11.6f' * 2 + '\n'
 
         for i in order:
             for b in range(size):
-- 
2.43.0


From 658ba59974fbd9dc77fea60050e223687d8fbf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:16 +0000
Subject: [PATCH 50/91] fix: do not lose Born effective charges in
 dynamical-matrix files

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 6bcfed7..52d046a 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1406,7 +1406,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
                 data.write('\n')
 
             if dyn:
-                data.write('\n     Effective charges\n')
+                data.write('\n     Effective charges E-U\n')
 
             for na in range(len(zeu)):
                 if dyn:
-- 
2.43.0


From 47dc6caf4f9a7f6de9cc8874654b1639fdecb2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 51/91] fix: quoted strings and indices in namelists

---
 elphmod/misc.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index c267a1d..1c9369d 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -525,36 +525,32 @@ def read_namelists(filename):
     with open(filename) as data:
         text = data.read()
 
-    # remove comments:
-
-    text = re.sub(r'!.*$', '', text, flags=re.MULTILINE)
-
-    # protect string (which might contain spaces):
+    # remove comments and protect strings (which might contain any character):
 
     groups = []
 
     def replace(match):
-        groups.append(match.group(0))
-        return '___%d___' % len(groups)
+        group = match.group(0)
+
+        if group.startswith('!'):
+            return ''
 
-    def place(match):
-        return groups[int(match.group(0).strip('_')) - 1]
+        groups.append(group[1:-1].replace(2 * group[0], group[0]))
+        return ' ___%d___ ' % len(groups)
 
-    count = 1
-    while count:
-        text, count = re.subn(r'\'[^\'"]*\'|"[^\'"]*"', replace, text)
+    text = re.sub(r"""'(?:[^'\n]|'')*'|"(?:[^"\n]|"")*"|!.*""", replace, text)
 
     # parse all namelists:
 
     data = dict()
 
-    for namelist in re.finditer(r'&(\w+)(.+?)/', text, flags=re.DOTALL):
+    for namelist in re.finditer(r'&(\w+)(.*?)/', text, flags=re.DOTALL):
         name, content = namelist.groups()
         name = name.lower()
         data[name] = dict()
 
         content = re.sub(r'=', ' = ', content)
-        content = re.sub(r'\s+\(', '(', content)
+        content = re.sub(r'\s*\(\s*(\d+)\s*\)', r'(\1)', content)
         items = re.split(r'[;,\s]+', content)
 
         key = None
@@ -573,12 +569,10 @@ def read_namelists(filename):
                     data[name][key].append(None)
 
             elif key is not None and item != '=':
-                count = 1
-                while count:
-                    item, count = re.subn(r'___\d+___', place, item)
+                string = re.match(r'___(\d+)___$', item)
 
-                if re.match(r'(\'.*\'|".*")$', item):
-                    item = item[1:-1]
+                if string:
+                    item = groups[int(string.group(1)) - 1]
                 elif re.search('[Tt]', item):
                     item = True
                 elif re.search('[Ff]', item):
@@ -621,7 +615,13 @@ def write_item(data, key, value):
         if isinstance(value, np.generic):
             value = value.item()
 
-        data.write('%s = %r\n' % (key, value))
+        if isinstance(value, str):
+            quote = '"' if "'" in value and '"' not in value else "'"
+            value = quote + value.replace(quote, 2 * quote) + quote
+        else:
+            value = repr(value)
+
+        data.write('%s = %s\n' % (key, value))
 
 def read_input_data(filename, broadcast=True):
     """Read Quantum ESPRESSO input data.
-- 
2.43.0


From 9070e7827598dd5fd3d2b22c98e60e152a2a61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 52/91] fix: layouts of cards in input files of Quantum
 ESPRESSO

---
 elphmod/bravais.py | 81 +++++++++++++++++++++-------------------------
 elphmod/misc.py    | 37 +++++++++++++++++++++
 2 files changed, 73 insertions(+), 45 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index d6768f8..915f4a9 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1844,14 +1844,13 @@ def read_pwi(pwi):
             if key in struct and not isinstance(struct[key], list):
                 struct[key] = [struct[key]]
 
-        with open(pwi) as lines:
-            for line in lines:
-                words = [word for word in line.split() if word]
-
-                if not words:
-                    continue
+        with open(pwi) as data:
+            lines = elphmod.misc.nonempty(data)
 
+            for words in lines:
                 key = words[0].lower()
+                unit = ''.join(c for c in ''.join(words[1:]).lower()
+                    if c not in '{}()')
 
                 if key == 'atomic_species':
                     struct['at_species'] = []
@@ -1859,18 +1858,14 @@ def read_pwi(pwi):
                     struct['pp'] = []
 
                     for n in range(struct['ntyp']):
-                        words = next(lines).split()
+                        words = next(lines)
 
                         struct['at_species'].append(words[0])
-                        struct['mass'].append(float(words[1]))
+                        struct['mass'].append(elphmod.misc.number(words[1]))
                         struct['pp'].append(words[2])
 
                 elif key == 'atomic_positions':
-                    if len(words) == 1:
-                        struct['coords'] = 'alat'
-                    else:
-                        struct['coords'] = ''.join(c for c in words[1].lower()
-                            if c not in '{ }')
+                    struct['coords'] = unit or 'alat'
 
                     print("Read crystal structure in units '%s'"
                         % struct['coords'])
@@ -1883,45 +1878,43 @@ def read_pwi(pwi):
                         struct['r'] = np.empty((struct['nat'], 3))
 
                     for n in range(struct['nat']):
-                        words = next(lines).split()
+                        words = next(lines)
 
                         struct['at'].append(words[0])
 
                         if 'crystal_sg' in struct['coords']:
-                            struct['r'].append(words[1])
+                            struct['r'].append(' '.join(words[1:]))
                         else:
                             for x in range(3):
-                                struct['r'][n, x] = float(words[1 + x])
+                                struct['r'][n, x] = elphmod.misc.number(
+                                    words[1 + x])
 
                 elif key == 'k_points':
-                    struct['ktyp'] = words[1].lower()
+                    struct['ktyp'] = unit or 'tpiba'
 
                     if 'automatic' in struct['ktyp']:
-                        struct[key] = list(map(int, next(lines).split()[:6]))
+                        struct[key] = list(map(int, next(lines)[:6]))
                     elif 'gamma' not in struct['ktyp']:
-                        struct['nks'] = int(next(lines))
+                        struct['nks'] = int(next(lines)[0])
                         struct[key] = np.empty((struct['nks'], 4))
 
                         for n in range(struct['nks']):
-                            struct[key][n] = list(map(float,
-                                next(lines).split()[:4]))
+                            struct[key][n] = list(map(elphmod.misc.number,
+                                next(lines)[:4]))
 
                 elif key == 'cell_parameters':
                     struct['r_cell'] = np.empty((3, 3))
-
-                    if len(words) == 1:
-                        struct['cell_units'] = 'bohr'
-                    else:
-                        struct['cell_units'] = words[1]
+                    struct['cell_units'] = unit or 'bohr'
 
                     print("Read cell parameters in units '%s'"
                         % struct['cell_units'])
 
                     for n in range(3):
-                        words = next(lines).split()
+                        words = next(lines)
 
                         for x in range(3):
-                            struct['r_cell'][n, x] = float(words[x])
+                            struct['r_cell'][n, x] = elphmod.misc.number(
+                                words[x])
 
     struct = comm.bcast(struct)
 
@@ -2358,25 +2351,21 @@ def read_matdyn(filename):
     dict
         Input parameters.
     """
+    import re
+
     struct = elphmod.misc.read_input_data(filename, broadcast=False)
 
     if comm.rank == 0:
-        with open(filename) as lines:
-            for line in lines:
-                if '/' in line:
-                    for line in lines:
-                        words = line.split()
-                        if words:
-                            break
+        with open(filename) as data:
+            text = re.sub(r"'[^'\n]*'|\"[^\"\n]*\"|!.*", '', data.read())
+            lines = elphmod.misc.nonempty(text.partition('/')[2].splitlines())
 
-                    struct['nq'] = int(words[0])
-                    struct['q'] = np.empty((struct['nq'], 4))
+            for words in lines:
+                struct['nq'] = int(words[0])
+                struct['q'] = np.array([list(map(elphmod.misc.number,
+                    next(lines)[:4])) for n in range(struct['nq'])])
 
-                    for n in range(struct['nq']):
-                        words = next(lines).split()
-
-                        for x in range(4):
-                            struct['q'][n, x] = float(words[x])
+                break
 
     struct = comm.bcast(struct)
 
@@ -2404,9 +2393,11 @@ def write_matdyn(matdyn, struct):
                 elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
-        data.write('%d\n' % struct['nq'])
-        for point in struct['q']:
-            data.write(' '.join('%12.9f' % q for q in point) + '\n')
+
+        if 'q' in struct:
+            data.write('%d\n' % len(struct['q']))
+            for point in struct['q']:
+                data.write(' '.join('%12.9f' % q for q in point) + '\n')
 
 def read_epw(filename):
     """Read input parameters from Quantum ESPRESSO's ``epw.x`` input file.
diff --git a/elphmod/misc.py b/elphmod/misc.py
index 1c9369d..818a530 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -623,6 +623,43 @@ def write_item(data, key, value):
 
         data.write('%s = %s\n' % (key, value))
 
+def nonempty(lines, comment='!#'):
+    """Iterate over lines that contain more than comments.
+
+    Parameters
+    ----------
+    lines : iterable of str
+        Lines of text.
+    comment : str
+        Characters that start a comment.
+
+    Yields
+    ------
+    list of str
+        Words of next line that is not empty.
+    """
+    for line in lines:
+        for c in comment:
+            line = line.partition(c)[0]
+
+        if line.strip():
+            yield line.split()
+
+def number(text):
+    """Convert (Fortran) representation of number to float.
+
+    Parameters
+    ----------
+    text : str
+        Number, possibly with ``d`` or ``D`` in front of the exponent.
+
+    Returns
+    -------
+    float
+        Value of the number.
+    """
+    return float(text.lower().replace('d', 'e'))
+
 def read_input_data(filename, broadcast=True):
     """Read Quantum ESPRESSO input data.
 
-- 
2.43.0


From 1523efad9f1215ebc28a204235759c2121e97cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 53/91] fix: layouts of Wannier90 input files

---
 elphmod/bravais.py | 175 +++++++++++++++++++--------------------------
 1 file changed, 75 insertions(+), 100 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 915f4a9..5398720 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2049,116 +2049,84 @@ def read_win(win):
     if comm.rank == 0:
         struct = dict()
 
-        with open(win) as lines:
+        with open(win) as data:
+            lines = elphmod.misc.nonempty(data)
+
             for line in lines:
                 words = [word
-                    for column in line.split()
-                    for word in column.split('=') if word]
+                    for column in line
+                    for word in column.replace('=', ' ').replace(':',
+                        ' ').split()]
 
-                if not words:
+                if len(words) < 2:
                     continue
 
                 key = words[0].lower()
 
-                if key == 'num_bands':
-                    struct[key] = int(words[1])
-                elif key == 'num_wann':
+                if key in {'num_bands', 'num_wann', 'dis_num_iter', 'num_iter',
+                        'search_shells'}:
                     struct[key] = int(words[1])
 
-                elif key == 'dis_win_min':
-                    struct[key] = float(words[1])
-                elif key == 'dis_win_max':
-                    struct[key] = float(words[1])
-                elif key == 'dis_froz_min':
-                    struct[key] = float(words[1])
-                elif key == 'dis_froz_max':
-                    struct[key] = float(words[1])
+                elif key in {'dis_win_min', 'dis_win_max', 'dis_froz_min',
+                        'dis_froz_max'}:
+                    struct[key] = elphmod.misc.number(words[1])
 
-                elif key == 'write_hr':
-                    struct[key] = 't' in words[1].lower()
-                elif key == 'bands_plot':
-                    struct[key] = 't' in words[1].lower()
-                elif key == 'wannier_plot':
+                elif key in {'write_hr', 'bands_plot', 'wannier_plot'}:
                     struct[key] = 't' in words[1].lower()
 
-                elif key == 'dis_num_iter':
-                    struct[key] = int(words[1])
-                elif key == 'num_iter':
-                    struct[key] = int(words[1])
-                elif key == 'search_shells':
-                    struct[key] = int(words[1])
-
                 elif key == 'mp_grid':
-                    mp_grid = np.empty(3, dtype=int)
-                    for i in range(3):
-                        mp_grid[i] = int(words[1 + i])
-                    struct[key] = mp_grid
+                    struct[key] = np.array(list(map(int, words[1:4])))
 
                 elif key == 'begin':
-                    if words[1] == 'projections':
+                    name = words[1].lower()
+                    block = []
+
+                    for words in lines:
+                        if words[0].lower() == 'end':
+                            break
+
+                        block.append(words)
+
+                    if name == 'projections':
                         # create sub-dict for projections
                         # complicated solution
                         # not able to save different wannier centres
                         # order of projections not preserved
-                        proj_dict = dict()
-                        while 'end' not in words:
-                            words = next(lines)
-                            if 'end' in words:
-                                continue
-                            else:
-                                atom_pos, orbital = words.split(':', 1)
-                                proj_dict[atom_pos.strip()] = orbital.strip()
-
-                        struct['proj'] = proj_dict
-
-                    elif words[1] == 'kpoint_path':
-                        struct['kpoint_path'] = []
+                        struct['proj'] = dict()
 
-                        while True:
-                            line = next(lines).strip()
+                        for words in block:
+                            atom_pos, orbital = ' '.join(words).split(':', 1)
+                            struct['proj'][atom_pos.strip()] = orbital.strip()
 
-                            if line.startswith('end'):
-                                break
+                    elif name == 'kpoint_path':
+                        struct['kpoint_path'] = list(map(' '.join, block))
 
-                            struct['kpoint_path'].append(line)
+                    elif name == 'unit_cell_cart':
+                        if len(block[0]) == 1:
+                            struct['unit_cell_units'] = block.pop(0)[0].lower()
 
-                    elif words[1] == 'unit_cell_cart':
-                        struct['unit_cell'] = np.empty((3, 3))
-
-                        for n in range(3):
-                            words = next(lines).split()
-
-                            for x in range(3):
-                                struct['unit_cell'][n, x] = float(words[x])
+                        struct['unit_cell'] = np.array([list(map(
+                            elphmod.misc.number, words[:3]))
+                            for words in block])
 
                     # read atoms_frac or atoms_cart
-                    elif words[1].startswith('atoms_'):
-                        struct['atoms_coords'] = words[1][6:len(words[1])]
-                        words = next(lines).split()
-                        # get nat from lines
-                        tmp = []
-                        while 'end' != words[0]:
-                            tmp.append(words)
-                            words = next(lines).split()
-                        nat = len(tmp)
-
-                        struct['at'] = []
-                        struct['atoms'] = np.empty((nat, 3))
-
-                        for n in range(nat):
-                            struct['at'].append(tmp[n][0])
-                            for x in range(3):
-                                struct['atoms'][n, x] = float(tmp[n][1 + x])
-
-                    elif words[1] == 'kpoints':
-                        nk = int(np.prod(mp_grid))
-                        struct['kpoints'] = np.zeros((nk, 4))
-
-                        for n in range(nk):
-                            words = next(lines).split()
-
-                            for x in range(len(words)):
-                                struct['kpoints'][n, x] = float(words[x])
+                    elif name.startswith('atoms_'):
+                        if len(block[0]) == 1:
+                            struct['atoms_units'] = block.pop(0)[0].lower()
+
+                        struct['atoms_coords'] = name[6:]
+                        struct['at'] = [words[0] for words in block]
+                        struct['atoms'] = np.array([list(map(
+                            elphmod.misc.number, words[1:4]))
+                            for words in block])
+
+                    elif name == 'kpoints':
+                        struct['kpoints'] = np.zeros((len(block), 4))
+
+                        for n, words in enumerate(block):
+                            for x in range(min(4, len(words))):
+                                struct['kpoints'][n, x] = elphmod.misc.number(
+                                    words[x])
     else:
         struct = None
 
@@ -2193,7 +2161,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['proj']:
+        if struct.get('proj'):
             data.write('begin projections\n')
             for key, value in struct['proj'].items():
                 data.write('%s: %s\n' % (key, value))
@@ -2201,7 +2169,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        for key in ['write_hr', 'bands_plot']:
+        for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
                 elphmod.misc.write_item(data, key, struct[key])
 
@@ -2213,7 +2181,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['kpoint_path']:
+        if struct.get('kpoint_path'):
             data.write('begin kpoint_path\n')
             for line in struct['kpoint_path']:
                 data.write('%s\n' % line)
@@ -2221,17 +2189,23 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        data.write('begin unit_cell_cart\n')
-        for (r1, r2, r3) in tuple(struct['unit_cell']):
-            data.write('%12.9f %12.9f %12.9f\n' % (r1, r2, r3))
-        data.write('end unit_cell_cart\n')
+        if 'unit_cell' in struct:
+            data.write('begin unit_cell_cart\n')
+            if 'unit_cell_units' in struct:
+                data.write('%s\n' % struct['unit_cell_units'])
+            for (r1, r2, r3) in tuple(struct['unit_cell']):
+                data.write('%12.9f %12.9f %12.9f\n' % (r1, r2, r3))
+            data.write('end unit_cell_cart\n')
 
         data.write('\n')
 
-        data.write('begin atoms_%s\n' % struct['atoms_coords'])
-        for X, (r1, r2, r3) in zip(struct['at'], struct['atoms']):
-            data.write('%2s %12.9f %12.9f %12.9f\n' % (X, r1, r2, r3))
-        data.write('end atoms_%s\n' % struct['atoms_coords'])
+        if 'atoms' in struct:
+            data.write('begin atoms_%s\n' % struct['atoms_coords'])
+            if 'atoms_units' in struct:
+                data.write('%s\n' % struct['atoms_units'])
+            for X, (r1, r2, r3) in zip(struct['at'], struct['atoms']):
+                data.write('%2s %12.9f %12.9f %12.9f\n' % (X, r1, r2, r3))
+            data.write('end atoms_%s\n' % struct['atoms_coords'])
 
         data.write('\n')
 
@@ -2240,10 +2214,11 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        data.write('begin kpoints\n')
-        for (kx, ky, kz, wk) in struct['kpoints']:
-            data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
-        data.write('end kpoints\n')
+        if 'kpoints' in struct:
+            data.write('begin kpoints\n')
+            for (kx, ky, kz, wk) in struct['kpoints']:
+                data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
+            data.write('end kpoints\n')
 
 def read_ph(filename):
     """Read input parameters from Quantum ESPRESSO's ``ph.x`` input file.
-- 
2.43.0


From 641edc6c2b79afec3390efdf96044611181d87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 54/91] fix: read VASP structures without selective dynamics

---
 elphmod/bravais.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 5398720..f3dd25e 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2537,24 +2537,33 @@ def readPOSCAR(filename):
 
         a = float(next(POSCAR))
 
-        t1 = np.array(list(map(float, next(POSCAR).split())))
-        t2 = np.array(list(map(float, next(POSCAR).split())))
-        t3 = np.array(list(map(float, next(POSCAR).split())))
+        t = np.array([list(map(float, next(POSCAR).split()[:3]))
+            for n in range(3)])
+
+        if a < 0: # negative of volume of unit cell
+            a = (-a / abs(np.linalg.det(t))) ** (1 / 3)
+
+        t1, t2, t3 = a * t
 
         elements = next(POSCAR).split()
 
         numbers = list(map(int, next(POSCAR).split()))
 
-        next(POSCAR)
-        next(POSCAR)
+        if next(POSCAR).strip().lower().startswith('s'): # selective dynamics
+            next(POSCAR)
 
         atoms = dict()
 
         for element, number in zip(elements, numbers):
-            atoms[element] = np.empty((number, 3))
+            r = np.empty((number, 3))
 
             for n in range(number):
-                atoms[element][n] = list(map(float, next(POSCAR).split()[:3]))
+                r[n] = list(map(float, next(POSCAR).split()[:3]))
+
+            if element in atoms:
+                r = np.concatenate((atoms[element], r))
+
+            atoms[element] = r
 
     return t1, t2, t3, atoms
 
-- 
2.43.0


From 0f24d8939006256318cb8ff44543035b0db4ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 55/91] fix: only consider namelists at beginning of line

---
 elphmod/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 818a530..f41dba1 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -544,7 +544,8 @@ def read_namelists(filename):
 
     data = dict()
 
-    for namelist in re.finditer(r'&(\w+)(.*?)/', text, flags=re.DOTALL):
+    for namelist in re.finditer(r'^\s*&(\w+)(.*?)/', text,
+            flags=re.DOTALL | re.MULTILINE):
         name, content = namelist.groups()
         name = name.lower()
         data[name] = dict()
-- 
2.43.0


From 9e8f31bd31f465f54d9fdadf90cd35e8aa5f6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 56/91] fix: order of data points in XCrySDen files

---
 elphmod/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index f41dba1..a345f61 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -464,8 +464,8 @@ def write_xsf(xsf, r0, a, X, tau, data, only_header=False, comm=comm):
                 text.write('%12.7f %11.7f %11.7f\n' % tuple(a[i]))
 
             if not only_header:
-                for i, value in enumerate(data.flat, 1):
-                    text.write('%13.5e' % value)
+                for i, value in enumerate(data.T.flat, 1):
+                    text.write(' %12.5e' % value)
 
                     if not i % 6 or i == data.size:
                         text.write('\n')
-- 
2.43.0


From ff240f70f69a27316973dea6ba50a790a7d4ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 57/91] fix: read array from text file with Python 3

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index e757c03..6ddc12d 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1646,7 +1646,7 @@ def read_data(filename):
     """Read array from ASCII file."""
 
     with open(filename) as text:
-        columns = text.next().split()
+        columns = next(text).split()
         shape = tuple(map(int, columns[:-1]))
         complex_data = {'R': False, 'C': True}[columns[-1]]
 
-- 
2.43.0


From a710aa26525471daa2df1e0480ff393a3202099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 58/91] fix: write XML files for coupling to single band

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 6ddc12d..199e387 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1555,7 +1555,7 @@ def write_xml_files(filename, data, angle=120, angle0=0):
         return
 
     if data.ndim == 4:
-        data = data[:, :, np.newaxis, np.newaxis, :, :]
+        data = data[:, :, :, :, np.newaxis, np.newaxis]
 
     nQ, nmodes, nk, nk, nbands, nbands = data.shape
 
-- 
2.43.0


From 5f19926dd9dfb63bab394b396e814dcf0eb40fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 59/91] fix: skip bands below offset when reading coupling

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 199e387..1074a35 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1181,7 +1181,7 @@ def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
                 ibnd -= offset
                 jbnd -= offset
 
-                if ibnd >= bands or jbnd >= bands:
+                if not 0 <= ibnd < bands or not 0 <= jbnd < bands:
                     continue
 
                 indices = n, nu, k1, k2, ibnd, jbnd
-- 
2.43.0


From 9b013393a9cc1e338a88df5f75ad0634a9ea512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 60/91] fix: allow for arrays as subset of bands

---
 elphmod/el.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index e9061f3..38e8c9f 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1562,7 +1562,7 @@ def eband(pw_scf_out, subset=None):
     nk, nbnd = energies.shape
     eband = np.zeros(energies.shape)
 
-    if subset == None:
+    if subset is None:
         for ik in range(nk):
             # weights wk
             wk = kpoints[ik, 3]
@@ -1602,7 +1602,7 @@ def demet_from_qe_pwo(pw_scf_out, subset=None):
 
     f = elphmod.occupations.smearing(smearing_type)
 
-    if subset == None:
+    if subset is None:
         for ik in range(nk):
             wk = kpoints[ik, 3]
             for iband in range(nbnd):
-- 
2.43.0


From 644eae489a543cee0da7f2d768d976b4d4c65c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 61/91] fix: read energies of calculations without Fermi level

---
 elphmod/el.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 38e8c9f..54e9b5e 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1327,7 +1327,7 @@ def read_Fermi_level(pw_scf_out):
 def read_pwo(pw_scf_out):
     """Read energies from PW output file."""
 
-    Ne = Ns = Nk = E = None
+    Ne = Ns = Nk = E = eF = None
     e_given = False
 
     if comm.rank == 0:
@@ -1348,6 +1348,9 @@ def read_pwo(pw_scf_out):
                 elif 'highest occupied, lowest unoccupied level' in line:
                     eF = sum(map(float, line.split()[-2:])) / 2
 
+                elif 'highest occupied level' in line:
+                    eF = float(line.split()[-1])
+
                 elif line.startswith('!'):
                     E = float(line.split()[-2]) * elphmod.misc.Ry
 
@@ -1370,8 +1373,11 @@ def read_pwo(pw_scf_out):
                     except ValueError:
                         pass
 
-        if e_given and eF is not None:
-            e = np.array(e) - eF
+        if e_given:
+            e = np.array(e)
+
+            if eF is not None:
+                e -= eF
 
     Ne = comm.bcast(Ne)
     Ns = comm.bcast(Ns)
-- 
2.43.0


From 5681901300875e537f7a2784b51e883d8c9d0b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 62/91] fix: voxel volume of Wannier functions

---
 elphmod/el.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 54e9b5e..cbd0bb0 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -263,7 +263,9 @@ class Model:
                 '%s_head.xsf' % seedname if read_buffer else
                 '%s_%05d.xsf' % (seedname, 1), only_header=True)
 
-            self.dV = abs(np.dot(np.cross(a[0], a[1]), a[2])) / np.prod(shape)
+            # spanning vectors connect first and last points of grid
+            self.dV = abs(np.dot(np.cross(a[0], a[1]), a[2])) / np.prod(
+                [max(n - 1, 1) for n in shape])
 
             if not read_buffer:
                 self.r = elphmod.misc.real_space_grid(shape, r0, a,
-- 
2.43.0


From 71aa3771192ff6549d8670fbff26b5cd017aa658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:14 +0000
Subject: [PATCH 63/91] fix: charge density for any number of grid points and
 Bravais lattice

---
 elphmod/el.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index cbd0bb0..d368618 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1816,14 +1816,18 @@ def read_pp_density(filename):
         ibrav = int(tmp[:1][0])
         celldm = list(map(float, tmp[1:]))
 
+        # calculate unit cell and brillouin zone volume
+        if ibrav == 0:
+            A = table(3) * celldm[0]
+        else:
+            A = elphmod.bravais.primitives(ibrav, celldm=celldm, bohr=True)
+
+        uc_volume = abs(np.linalg.det(A))
+
         # read unknown line
         tmp = cells()
         kin_energy_cutoff = float(tmp[2])
 
-        # calculate unit cell and brillouin zone volume
-        A = elphmod.bravais.primitives(ibrav)
-        A[2, 2] = celldm[2]
-        uc_volume = np.linalg.det(A) * celldm[0] ** 3
 #        B1, B2, B3 = elphmod.bravais.reciprocals(*A)
 #        B = np.stack((B1, B2, B3), axis=0)
 #        print(B)
@@ -1843,14 +1847,14 @@ def read_pp_density(filename):
         # read rho table
         # total number of real-space grid points:
         nr_points = np.prod(FFT_dim[:3])
-        # separated into columns of 5:
-        if divmod(nr_points, 5)[1] != 0:
-            print('Warning: Total number of grid points is not divisible by 5!')
-        rho = table(divmod(nr_points, 5)[0])
+        # separated into (up to) five columns:
+        rho = []
+        while len(rho) < nr_points:
+            rho.extend(map(float, cells()))
 
-        tot_charge = rho.sum() / nr_points * uc_volume
+        rho = np.array(rho)
 
-        rho = rho.reshape(np.prod(FFT_dim[:3]))
+        tot_charge = rho.sum() / nr_points * uc_volume
 
         return rho, tot_charge
 
-- 
2.43.0


From aa521a4adff6f52e020dc02d395d676d86226161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 64/91] fix: origin of Gaussian cube files

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index a345f61..78f0a3b 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -280,11 +280,11 @@ def read_cube(cube, only_header=False, comm=comm):
         r0 = np.array(list(map(float, cols[1:4])))
     else:
         nat = None
+        r0 = np.empty(3, dtype=float)
 
     nat = comm.bcast(nat)
 
     n = np.empty(3, dtype=int)
-    r0 = np.empty(3, dtype=float)
     a = np.empty((3, 3), dtype=float)
     X = np.empty(nat, dtype=int)
     tau = np.empty((nat, 3), dtype=float)
-- 
2.43.0


From 5b986b73ff31e47e9767e4a340a25e261d6c0f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:37 +0000
Subject: [PATCH 65/91] fix: long-range coupling in supercells on subset of
 processes

---
 elphmod/bravais.py | 4 +++-
 elphmod/elph.py    | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index f3dd25e..cd619e8 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -371,7 +371,7 @@ def volume(a1, a2=None, a3=None):
 
     return abs(np.dot(a1, np.cross(a2, a3)))
 
-def supercell(N1=1, N2=1, N3=1):
+def supercell(N1=1, N2=1, N3=1, comm=comm):
     """Set up supercell.
 
     Parameters
@@ -380,6 +380,8 @@ def supercell(N1=1, N2=1, N3=1):
         Supercell lattice vectors in units of primitive lattice vectors.
         Multiples of single primitive vector can be defined via a scalar
         integer, linear combinations via a 3-tuple of integers.
+    comm : MPI.Intracomm
+        Group of processors running this function.
 
     Returns
     -------
diff --git a/elphmod/elph.py b/elphmod/elph.py
index 1074a35..1cc619e 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -219,7 +219,8 @@ class Model:
         else:
             q = np.array([q1, q2, q3])
 
-            supercell = elphmod.bravais.supercell(*self.ph.N)
+            supercell = elphmod.bravais.supercell(*self.ph.N,
+                comm=elphmod.MPI.I)
 
             for a, A in enumerate(np.array(self.cells)):
                 for x, X in enumerate(np.array(self.cells)):
-- 
2.43.0


From 3ac36b9e6753c2b3e3128cf09bd48cf4369d0016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:37 +0000
Subject: [PATCH 66/91] fix: dispersion for integer k points on multiple
 processes

---
 elphmod/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 7af1820..86dd226 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -58,7 +58,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
         Indices which have been used to order the bands.
     """
     if comm.rank == 0:
-        k = np.array(k)
+        k = np.array(k, dtype=float)
         kshape = k.shape[:max(1, k.ndim - 1)]
         points = np.prod(kshape)
         k = np.reshape(k, (points, -1))
-- 
2.43.0


From 4973a4d4cb5aee566689fd3b7dae8ea289bdb722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:04 +0000
Subject: [PATCH 67/91] fix: access to shared coupling in simulations on
 multiple processes

---
 elphmod/md.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 93c43aa..d09ee39 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -432,6 +432,8 @@ class Driver:
                 if self.node.rank == 0:
                     self.images.Bcast(self.d[iq].view(dtype=float))
 
+            comm.Barrier() # wait until all processes can read "d"
+
             C = elphmod.diagrams.phonon_self_energy(self.q[:nq], self.e,
                 g=self.d[:nq], kT=self.kT, occupations=self.f, eps=eps)
 
@@ -470,6 +472,8 @@ class Driver:
             if gamma_only:
                 g2dd = g2dd.real
 
+        comm.Barrier() # wait until no process reads "d" anymore
+
         returns = C[0].real if gamma_only else C
 
         if kT is not None:
-- 
2.43.0


From 42b10b468d27a6f600252350e4291380a23cbdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:08 +0000
Subject: [PATCH 68/91] fix: order dispersion without symmetry on multiple
 processes

---
 elphmod/dispersion.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 86dd226..36d8057 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -387,13 +387,22 @@ def dispersion_full_nosym(matrix, size, vectors=False, order=False,
         _, o = dispersion_full(matrix, size, vectors=False, order=True,
             *args, **kwargs)
 
-        for k1 in range(size):
-            for k2 in range(size):
-                v[k1, k2] = v[k1, k2, o[k1, k2]]
+        if kwargs.get('broadcast', True):
+            node, images = elphmod.MPI.shm_split(comm,
+                shared_memory=kwargs.get('shared_memory', False))
+        else:
+            node = comm
 
-                if vectors:
-                    for n in range(V.shape[2]):
-                        V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+        if node.rank == 0: # memory may be shared among processes on same node
+            for k1 in range(size):
+                for k2 in range(size):
+                    v[k1, k2] = v[k1, k2, o[k1, k2]]
+
+                    if vectors:
+                        for n in range(V.shape[2]):
+                            V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+
+        node.Barrier()
 
     # return results:
 
-- 
2.43.0


From 9ea0882a2711dd937b99bcfe498dd5e38226d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 69/91] fix: wait for sampled coupling in shared memory on all
 processes

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 1cc619e..59f3df3 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -973,6 +973,8 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
 
                 row.Barrier()
 
+        node.Barrier()
+
         return g
 
     if col.rank == 0:
-- 
2.43.0


From fd1075ee2a4bffbf433f4f415ad723ab1732d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:26 +0000
Subject: [PATCH 70/91] fix: broadcast data in Fortran order

---
 elphmod/MPI.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index 7431d23..c7afb66 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -372,6 +372,8 @@ def load(filename, shared_memory=False, txt=False, comm=comm):
     else:
         if comm.rank != 0:
             data = np.empty(shape, dtype=dtype)
+        elif not data.flags.c_contiguous:
+            data = np.array(data, order='C')
 
         comm.Bcast(data)
 
-- 
2.43.0


From 845e28ebe95bc5d2596f455d5ba21ba2a8acd633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:11 +0000
Subject: [PATCH 71/91] fix: order of bands in double Fermi-surface averages
 via tetrahedra

Squared coupling is indexed by the final before the initial band. The
tetrahedron method used the opposite order, in contrast to the summation
over broadened delta functions.
---
 elphmod/eliashberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/eliashberg.py b/elphmod/eliashberg.py
index 6401a42..162ea7b 100644
--- a/elphmod/eliashberg.py
+++ b/elphmod/eliashberg.py
@@ -120,7 +120,7 @@ def McMillan(nq, e, w2, g2, eps=1e-10, mustar=0.0, tetra=False, kT=0.025,
                         E[:, :, m])(0)
 
                     for (k1, k2), weight in intersections.items():
-                        g2dd[iq] += weight * g2_fun(k1, k2)[:, n, m]
+                        g2dd[iq] += weight * g2_fun(k1, k2)[:, m, n]
                         dd[iq] += weight
 
         N0 = 0
-- 
2.43.0


From 299d45c8c1d6304d5838e0497cb60021326dee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:51 +0000
Subject: [PATCH 72/91] fix: sign of wave vector in dynamical matrix of
 graphene

The analytic dynamical matrix was the complex conjugate of the one of the
mass-spring model created from it and of that implied by the phase
convention of the coupling.
---
 elphmod/models/graphene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/models/graphene.py b/elphmod/models/graphene.py
index a7aadf6..2968a7c 100644
--- a/elphmod/models/graphene.py
+++ b/elphmod/models/graphene.py
@@ -75,14 +75,14 @@ def dynamical_matrix(q1=0, q2=0, q3=0):
 
     C = np.empty((6, 6), dtype=complex)
 
-    C[3:, :3] = K1 * np.exp(1j * q1) + K2 + K3 * np.exp(-1j * q2)
+    C[:3, 3:] = K1 * np.exp(1j * q1) + K2 + K3 * np.exp(-1j * q2)
     C[:3, :3] = (L1 * np.exp(1j * q1) + L2 * np.exp(1j * q2)
         + L3 * np.exp(-1j * (q1 + q2)))
     C[:3, :3] += C[:3, :3].conj()
 
     C[:3, :3] -= K1 + K2 + K3 + 2 * (L1 + L2 + L3)
 
-    C[:3, 3:] = C[3:, :3].conj().T
+    C[3:, :3] = C[:3, 3:].conj().T
     C[3:, 3:] = C[:3, :3].conj()
 
     return C / M
-- 
2.43.0


From 09b2ab193c05bb73912479565b36d2eacb88e91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 73/91] fix: truncation of interpolated integer data in plots

---
 elphmod/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 87c4983..24bbb16 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -45,7 +45,7 @@ def plot(mesh, kxmin=-1.0, kxmax=1.0, kymin=-1.0, kymax=1.0, resolution=100,
 
     sizes, bounds = elphmod.MPI.distribute(nky * nkx, bounds=True)
 
-    my_image = np.empty(sizes[comm.rank], dtype=mesh.dtype)
+    my_image = np.empty(sizes[comm.rank], dtype=np.result_type(mesh, 1.0))
 
     status = elphmod.misc.StatusBar(sizes[comm.rank], title='plot')
 
@@ -61,7 +61,7 @@ def plot(mesh, kxmin=-1.0, kxmax=1.0, kymin=-1.0, kymax=1.0, resolution=100,
         status.update()
 
     if broadcast or comm.rank == 0:
-        image = np.empty((nky, nkx), dtype=mesh.dtype)
+        image = np.empty((nky, nkx), dtype=my_image.dtype)
     else:
         image = None
 
@@ -105,7 +105,7 @@ def double_plot(mesh, q, nq, qxmin=-0.8, qxmax=0.8, qymin=-0.8, qymax=0.8,
 
     sizes, bounds = elphmod.MPI.distribute(nqy * nqx, bounds=True)
 
-    my_image = np.empty(sizes[comm.rank], dtype=mesh.dtype)
+    my_image = np.empty(sizes[comm.rank], dtype=np.result_type(mesh, 1.0))
 
     status = elphmod.misc.StatusBar(sizes[comm.rank], title='double plot')
 
@@ -135,7 +135,7 @@ def double_plot(mesh, q, nq, qxmin=-0.8, qxmax=0.8, qymin=-0.8, qymax=0.8,
         status.update()
 
     if broadcast or comm.rank == 0:
-        image = np.empty((nqy, nqx), dtype=mesh.dtype)
+        image = np.empty((nqy, nqx), dtype=my_image.dtype)
     else:
         image = None
 
-- 
2.43.0


From 2e422e42d5af938a53553670b38ee221da83aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 74/91] fix: interpolation of data on Brillouin zones for all
 lattices

The angle between the reciprocal lattice vectors was not passed to the
interpolation routine, which thus always assumed the default of 60 degrees.
This broke the symmetry of the image for lattice angles of 60 and 90 degrees.
---
 elphmod/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 24bbb16..70fa936 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -277,7 +277,7 @@ def toBZ(data=None, points=1000,
 
     ndata, nk, nk = data.shape
 
-    fun = list(map(interpolation, data))
+    fun = [interpolation(mesh, angle=180 - angle) for mesh in data]
 
     sizes, bounds = elphmod.MPI.distribute(nky * nkx, bounds=True)
 
-- 
2.43.0


From eb986e07f27f6e5b0f8756eb51c7c078ce1b4aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 75/91] fix: corners of rotated square Brillouin zone were cut
 off

---
 elphmod/plot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 70fa936..fb4aa43 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -250,8 +250,12 @@ def toBZ(data=None, points=1000,
         b3 = b1 - b2
         M = 2 / 3
 
-    kxmax = max(abs(a1[0]), abs(a2[0]), abs(a3[0])) * M
-    kymax = max(abs(a1[1]), abs(a2[1]), abs(a3[1])) * M
+    # corners of Brillouin zone:
+
+    corners = [a1 + a2, a1 - a2] if angle == 90 else [a1, a2, a3]
+
+    kxmax = max(abs(corner[0]) for corner in corners) * M
+    kymax = max(abs(corner[1]) for corner in corners) * M
 
     nkx = int(round(points * kxmax))
     nky = int(round(points * kymax))
-- 
2.43.0


From f09bbf8589c28b5cd8605b6ed79f1e330cb6d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 76/91] fix: colorbar at lower edge of image

---
 elphmod/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index fb4aa43..da772fd 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -186,7 +186,7 @@ def colorbar(image, left=0.02, bottom=0.02, width=0.03, height=0.30,
 
     x1 = int(round(image_width * left))
     x2 = int(round(image_width * (left + width)))
-    y1 = int(round(image_height * (1 - bottom)))
+    y1 = min(int(round(image_height * (1 - bottom))), image_height - 1)
     y2 = int(round(image_height * (1 - bottom - height)))
 
     if minimum is None:
-- 
2.43.0


From 234247a443001413c175f5f36286a6d09f8a5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 77/91] fix: color list of lists for given minimum

---
 elphmod/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index da772fd..8c5d765 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -403,6 +403,8 @@ def color(data, cmap=None, minimum=None, maximum=None, comm=comm):
     list of list of list
         RGB image.
     """
+    data = np.asarray(data)
+
     if minimum is None:
         minimum = np.nanmin(data)
 
-- 
2.43.0


From e734a79c1b0daebffcdff936476cd32526ad948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 78/91] fix: resize nonperiodic data to single point

This also affects plots where adjacent points of a path coincide.
---
 elphmod/bravais.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index cd619e8..d4f3704 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1014,7 +1014,8 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
     if periodic:
         scale = np.divide(data.shape[:len(shape)], shape)
     else:
-        scale = np.subtract(data.shape[:len(shape)], 1) / np.subtract(shape, 1)
+        scale = (np.subtract(data.shape[:len(shape)], 1)
+            / np.maximum(np.subtract(shape, 1), 1))
 
     for n, m in enumerate(range(*bounds[comm.rank:comm.rank + 2])):
         if len(shape) == 2:
-- 
2.43.0


From 617cd8cc431104b80e00f10daae632582852adeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:59 +0000
Subject: [PATCH 79/91] fix: find extremum for given function arguments

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 78f0a3b..dff35f2 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -835,7 +835,7 @@ def minimum(*args):
     """
     if len(args) == 6:
         x1, x2, x3, y1, y2, y3 = args
-    if len(sys.argv) == 7:
+    elif len(sys.argv) == 7:
         x1, x2, x3, y1, y2, y3 = list(map(float, sys.argv[1:]))
     else:
         raise SystemExit('Usage: minimum x1 x2 x3 y1 y2 y3')
-- 
2.43.0


From bf4f82cd78cdcd3ee286c4d51464d464ca2a48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:59 +0000
Subject: [PATCH 80/91] fix: integration weights for integer sample points

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index dff35f2..993479b 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -232,7 +232,7 @@ def differential(x):
     ndarray
         Integration Weights.
     """
-    dx = np.empty_like(x)
+    dx = np.empty_like(x, dtype=np.result_type(x, 1.0))
 
     dx[0] = x[1] - x[0]
     dx[1:-1] = x[2:] - x[:-2]
-- 
2.43.0


From 65790c62aba85636af3d7c6904e06ca958c1d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:59 +0000
Subject: [PATCH 81/91] fix: undefined name in interpolation of dynamical
 matrices via QE

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 52d046a..ecc3f2a 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -2071,7 +2071,7 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
             D[:, group(na), :] *= np.sqrt(amass[na])
             D[:, :, group(na)] *= np.sqrt(amass[na])
 
-    sizes, bounds = MPI.distribute(len(q), bounds=True)
+    sizes, bounds = elphmod.MPI.distribute(len(q), bounds=True)
 
     for iq in range(*bounds[comm.rank:comm.rank + 2]):
         fildynq = fildyn + str(iq + 1)
-- 
2.43.0


From 0a7f6a5d03f269abf9376e09b3d981706b66cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 82/91] fix: transform Coulomb interaction to band basis
 without mpi4py

---
 elphmod/elel.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index b4bc2ce..3308837 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -494,14 +494,17 @@ def orbital2band(U, H, nq, nk, band=0, status=False, share=False, dd=False):
     else:
         points = None
 
-    my_points = np.empty((sizes[comm.rank], 10), dtype=np.uint8)
+    if comm.size == 1: # no custom MPI data types without mpi4py
+        my_points = points
+    else:
+        my_points = np.empty((sizes[comm.rank], 10), dtype=np.uint8)
 
-    # Chunk-wise scattering to overcome MPI's array-length limit of 2^32 - 1:
-    # (adapted from L. Dalcin's reply to 'Gatherv seg fault?' on Google Groups)
+        # Chunk-wise scattering to overcome MPI's array-length limit (2^32 - 1):
+        # (adapted from L. Dalcin's reply to 'Gatherv seg fault?', Google Groups)
 
-    chunk = elphmod.MPI.MPI.UNSIGNED_CHAR.Create_contiguous(10).Commit()
-    comm.Scatterv((points, sizes, chunk), (my_points, chunk))
-    chunk.Free()
+        chunk = elphmod.MPI.MPI.UNSIGNED_CHAR.Create_contiguous(10).Commit()
+        comm.Scatterv((points, sizes, chunk), (my_points, chunk))
+        chunk.Free()
 
     # transform from orbital to band basis:
     #
-- 
2.43.0


From b0a46c6234986d85fa8239580ed4e97d1707f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 83/91] fix: list of q points for interpolation of dynamical
 matrices via QE

---
 elphmod/ph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index ecc3f2a..ace7c30 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -2057,6 +2057,8 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
     for iq, (q1, q2) in enumerate(q):
         q_cart.append(q1 * b1 + q2 * b2)
 
+    q_cart = np.array(q_cart)
+
     # write 'fildyn0' with information about q-point mesh:
 
     if write_fildyn0:
-- 
2.43.0


From 71283f4c00df1daf39abed76021805b84dfc95d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:58 +0000
Subject: [PATCH 84/91] fix: acoustic sum rule for MD Hessian at finite q

---
 elphmod/md.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index d09ee39..39eaa16 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -447,10 +447,10 @@ class Driver:
         if apply_asr_simple:
             C = C.reshape((nq, self.elph.ph.nat, 3, self.elph.ph.nat, 3))
 
-            corr = C.sum(axis=3)
+            corr = C[0].sum(axis=2)
 
             for na in range(self.elph.ph.nat):
-                C[:, na, :, na, :] -= corr[:, na]
+                C[:, na, :, na, :] -= corr[na]
 
             C = C.reshape((nq, self.elph.ph.size, self.elph.ph.size))
 
-- 
2.43.0


From a9484595c8dfc64b200325e270d684a6b1af2f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:07 +0000
Subject: [PATCH 85/91] fix: Keep absolute data values of colormap for next
 image

---
 elphmod/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 8c5d765..317f764 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -411,6 +411,8 @@ def color(data, cmap=None, minimum=None, maximum=None, comm=comm):
     if maximum is None:
         maximum = np.nanmax(data)
 
+    points = list(cmap.x)
+
     for n, x in enumerate(cmap.x):
         if type(x) is str:
             cmap.x[n] = (float(x) - minimum) / (maximum - minimum)
@@ -437,6 +439,8 @@ def color(data, cmap=None, minimum=None, maximum=None, comm=comm):
 
     comm.Allgatherv(my_image, (image, sizes * 3))
 
+    cmap.x[:] = points # absolute data values may differ for next image
+
     return image
 
 def adjust_pixels(image, points, distances, width, height=None):
-- 
2.43.0


From 7c87fc8dc5905dc8645fc60398abf9d0a5546d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:42 +0000
Subject: [PATCH 86/91] fix: Accept integer lattice vectors and charges

---
 elphmod/bravais.py | 6 +++---
 elphmod/ph.py      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index d4f3704..5f7e4c8 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -344,9 +344,9 @@ def reciprocals(a1, a2, a3=None):
         b2 = np.cross(a3, a1)
         b3 = np.cross(a1, a2)
 
-        b1 /= np.dot(a1, b1)
-        b2 /= np.dot(a2, b2)
-        b3 /= np.dot(a3, b3)
+        b1 = b1 / np.dot(a1, b1)
+        b2 = b2 / np.dot(a2, b2)
+        b3 = b3 / np.dot(a3, b3)
 
         return b1, b2, b3
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index ace7c30..7d21884 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -396,8 +396,8 @@ class Model:
 
         self.G = np.array(self.G)
 
-        self.z = np.copy(self.Z)
-        self.q = np.copy(self.Q)
+        self.z = np.array(self.Z, dtype=float)
+        self.q = None if self.Q is None else np.array(self.Q, dtype=float)
 
         self.D0_lr = np.zeros((self.size, self.size), dtype=complex)
         Dq0_lr = self.D_lr()
-- 
2.43.0


From ba3239f3eb710231b15a0c04b707dd55aa633c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:42 +0000
Subject: [PATCH 87/91] fix: Do not modify given Born charges

---
 elphmod/ph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 7d21884..2a0f234 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -265,6 +265,7 @@ class Model:
                 Q = read_quadrupole_fmt(quadrupole_fmt)
 
             if apply_zasr and zeu is not None:
+                zeu = np.array(zeu, dtype=float)
                 zasr(zeu)
 
         phid = comm.bcast(phid)
-- 
2.43.0


From deb6e5215b741820c3e38f940bce45b104b86792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:08 +0000
Subject: [PATCH 88/91] fix: Accept integer squared phonon frequencies

---
 elphmod/eliashberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/eliashberg.py b/elphmod/eliashberg.py
index 162ea7b..42abd48 100644
--- a/elphmod/eliashberg.py
+++ b/elphmod/eliashberg.py
@@ -138,7 +138,7 @@ def McMillan(nq, e, w2, g2, eps=1e-10, mustar=0.0, tetra=False, kT=0.025,
     g2dd *= weights[:, np.newaxis]
     dd *= weights
 
-    w2 = w2.copy()
+    w2 = np.array(w2, dtype=float)
 
     dangerous = np.where(w2 < eps)
 
-- 
2.43.0


From 129d904223235e9dcfce512ce8659e392141d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:15 +0000
Subject: [PATCH 89/91] fix: Send arrays in C order

Fourier transforms of the electron-phonon coupling and k points that are
Fortran-contiguous (e.g., a transposed list of coordinates) were
communicated in memory order, which gave wrong results for more than one
process.
---
 elphmod/dispersion.py | 2 +-
 elphmod/elph.py       | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 36d8057..72046d6 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -61,7 +61,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
         k = np.array(k, dtype=float)
         kshape = k.shape[:max(1, k.ndim - 1)]
         points = np.prod(kshape)
-        k = np.reshape(k, (points, -1))
+        k = np.ascontiguousarray(np.reshape(k, (points, -1)))
         dimens = k.shape[-1]
     else:
         kshape = points = dimens = None
diff --git a/elphmod/elph.py b/elphmod/elph.py
index 59f3df3..c769929 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -133,7 +133,8 @@ class Model:
                 comm=comm)[1][comm.rank:comm.rank + 2]
 
             my_g = np.einsum('Rxrab,R->xrab',
-                self.data[Rl:Ru], np.exp(1j * self.Rg[Rl:Ru].dot(q)))
+                self.data[Rl:Ru], np.exp(1j * self.Rg[Rl:Ru].dot(q)),
+                order='C')
 
             # Sign convention in bloch2wan.f90 of EPW:
             # 1222  cfac = EXP(-ci * rdotk) / DBLE(nq)
@@ -154,7 +155,8 @@ class Model:
             comm=comm)[1][comm.rank:comm.rank + 2]
 
         my_g = np.einsum('xRab,R->xab',
-            self.gq[:, Rl:Ru], np.exp(1j * self.Rk[Rl:Ru].dot(k)))
+            self.gq[:, Rl:Ru], np.exp(1j * self.Rk[Rl:Ru].dot(k)),
+            order='C')
 
         # Sign convention in bloch2wan.f90 of EPW:
         # 1120  cfac = EXP(-ci * rdotk) / DBLE(nkstot)
-- 
2.43.0


From 41fa41839cd797f451c4a5bd7edc26b6a8a05458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:20 +0000
Subject: [PATCH 90/91] fix: Keep shape of lattice data when mapping zero model
 from or onto supercell

---
 elphmod/el.py   | 5 +++--
 elphmod/elel.py | 5 +++--
 elphmod/ph.py   | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index d368618..6c8b99d 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -438,8 +438,9 @@ class Model:
 
                 status.update()
 
-            el.R = np.array(list(const.keys()), dtype=int)
-            el.data = np.array(list(const.values()))
+            el.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+            el.data = np.array(list(const.values())).reshape((-1,
+                el.size, el.size))
 
             count = len(const)
             const.clear()
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 3308837..97d48db 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -193,8 +193,9 @@ class Model:
 
                 status.update()
 
-            elel.R = np.array(list(const.keys()), dtype=int)
-            elel.data = np.array(list(const.values()))
+            elel.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+            elel.data = np.array(list(const.values())).reshape((-1,
+                elel.size, elel.size))
 
             count = len(const)
             const.clear()
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 2a0f234..a4cda2c 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -746,8 +746,9 @@ class Model:
 
                 status.update()
 
-            ph.R = np.array(list(const.keys()), dtype=int)
-            ph.data = np.array(list(const.values()))
+            ph.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+            ph.data = np.array(list(const.values())).reshape((-1,
+                ph.size, ph.size))
 
             count = len(const)
             const.clear()
-- 
2.43.0


From 86709c9da00e1245f4cefc7fd422121d832a9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:18 +0000
Subject: [PATCH 91/91] fix: Return zero matrix element if there are no lattice
 vectors

---
 elphmod/el.py   | 2 +-
 elphmod/elel.py | 2 +-
 elphmod/ph.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 6c8b99d..cd2ff34 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -159,7 +159,7 @@ class Model:
         index = elphmod.misc.vector_index(self.R, (R1, R2, R3))
 
         if index is None:
-            return np.zeros_like(self.data[0])
+            return np.zeros_like(self.data, shape=self.data.shape[1:])
         else:
             return self.data[index]
 
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 97d48db..7b59e76 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -90,7 +90,7 @@ class Model:
         index = elphmod.misc.vector_index(self.R, (R1, R2, R3))
 
         if index is None:
-            return np.zeros_like(self.data[0])
+            return np.zeros_like(self.data, shape=self.data.shape[1:])
         else:
             return self.data[index]
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index a4cda2c..50f3a29 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -195,7 +195,7 @@ class Model:
         index = elphmod.misc.vector_index(self.R, (R1, R2, R3))
 
         if index is None:
-            return np.zeros_like(self.data[0])
+            return np.zeros_like(self.data, shape=self.data.shape[1:])
         else:
             return self.data[index]
 
-- 
2.43.0

