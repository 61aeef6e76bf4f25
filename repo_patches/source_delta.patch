From 767eb9f2b99e193bb121a0a5188a999c86639c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 01/58] fix: dividing an operator by an integer no longer
 truncates the factor

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index a7d8155..6f847e8 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -431,7 +431,7 @@ class LinearOperator(BaseLinearOperator):
     def __div__(self, other):
         if not np.isscalar(other):
             raise ValueError('Cannot divide')
-        return self * (1 / other)
+        return self * (1.0 / other)
 
     def __truediv__(self, other):
         if not np.isscalar(other):
-- 
2.43.0


From c773c614f55e4451f919e9e3cb3c7678f945aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 02/58] fix: a diagonal operator no longer changes when the
 caller modifies its input

---
 pykrylov/linop/linop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 6f847e8..7a49df5 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -489,10 +489,10 @@ class DiagonalOperator(LinearOperator):
         if 'dtype' in kwargs:
             kwargs.pop('dtype')
 
-        diag = np.asarray(diag)
+        diag = np.array(diag)    # Private copy.
         if diag.ndim != 1:
             raise ValueError('Input must be 1-d array')
-        self.__diag = diag.copy()
+        self.__diag = diag
 
         super(DiagonalOperator, self).__init__(diag.shape[0], diag.shape[0],
                                                symmetric=True,
-- 
2.43.0


From e27771c91cb91ec043f1b5f358ae075ce3e48c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 03/58] fix: infer the full shape of a coordinate operator from
 its indices

---
 pykrylov/linop/linop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 7a49df5..ddd2be0 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -643,8 +643,9 @@ def CoordLinearOperator(vals, rows, cols,
     `rows` and `cols`. If `symmetric` is `True`, then `vals`, `rows` and
     `cols` are assumed to only represent one triangle of the operator.
     """
-    if nargin == 0: nargin = cols.max()
-    if nargout == 0: nargout = rows.max()
+    if nargin == 0: nargin = cols.max() + 1
+    if nargout == 0: nargout = rows.max() + 1
+    if symmetric: nargin = nargout = max(nargin, nargout)
 
     def matvec(x):
       if x.shape != (nargin,):
-- 
2.43.0


From 5a1a3407a0132d5b81a46694a2a94e4582b9a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 04/58] fix: a complex symmetric array is not Hermitian by
 default

---
 pykrylov/linop/linop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index ddd2be0..c7e5c5b 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -724,9 +724,8 @@ def PysparseLinearOperator(A):
 def linop_from_ndarray(A, symmetric=False, **kwargs):
     "Return a linear operator from a Numpy `ndarray`."
 
-    hermitian = kwargs.get('hermitian', symmetric)
-
     if A.dtype in complex_types:
+        hermitian = kwargs.get('hermitian', False)
         return LinearOperator(A.shape[1], A.shape[0],
                               lambda v: np.dot(A, v),
                               matvec_transp=lambda u: np.dot(A.T, u),
@@ -735,6 +734,7 @@ def linop_from_ndarray(A, symmetric=False, **kwargs):
                               hermitian=hermitian,
                               dtype=A.dtype)
 
+    hermitian = kwargs.get('hermitian', symmetric)
     if symmetric ^ hermitian:
         raise ValueError('For non-complex operators, transpose = adjoint.')
 
-- 
2.43.0


From 4528db084dab9e377e03c5ccea388311638eb50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 05/58] fix: inferred complex transpose and adjoint refer back
 to their operator

---
 pykrylov/linop/linop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index c7e5c5b..4cf359b 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -144,6 +144,10 @@ class LinearOperator(BaseLinearOperator):
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
+                if self.T is not None and self.H is not None:
+                    # Link inferred operators back to this one.
+                    self.__T.__T = self.__H.__H = self
+                    __conj.__T, __conj.__H = self.__H, self.__T
 
     def __set_transpose(self, matvec, transpose_of=None, matvec_transp=None, **kwargs):
 
-- 
2.43.0


From d83460fb3c4a299fd607d082a4ba43b90befa1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 06/58] fix: transpose and adjoint of a block diagonal operator
 with rectangular blocks

---
 pykrylov/linop/blkop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 41511ae..8f2790b 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -184,9 +184,9 @@ class BlockDiagonalLinearOperator(LinearOperator):
 
         def blk_matvec(x, blks):
             nx = len(x)
-            nargins = [blk.shape[-1] for blk in blocks]
+            nargins = [blk.shape[-1] for blk in blks]
             nargin = sum(nargins)
-            nargouts = [blk.shape[0] for blk in blocks]
+            nargouts = [blk.shape[0] for blk in blks]
             nargout = sum(nargouts)
             self.logger.debug('Multiplying with a vector of size %d' % nx)
             self.logger.debug('nargin=%d, nargout=%d' % (nargin, nargout))
-- 
2.43.0


From ccc6cfb71f4a129ea2e3a73253451d79e614305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 07/58] fix: block operators no longer modify or share the
 caller's lists of blocks

---
 pykrylov/linop/blkop.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 8f2790b..956d991 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -1,6 +1,5 @@
 from pykrylov.linop import BaseLinearOperator, LinearOperator
 from pykrylov.linop import ShapeError, null_log
-from copy import copy
 import numpy as np
 import itertools
 
@@ -33,7 +32,7 @@ class BlockLinearOperator(LinearOperator):
                 if hermitian and not block_row[0].hermitian:
                     raise ValueError('Blocks on diagonal must be hermitian.')
 
-            self._blocks = copy(blocks)
+            self._blocks = [list(row) for row in blocks]
             for i in range(1, nrow):
                 for j in range(i - 1, -1, -1):
                     if symmetric:
@@ -42,7 +41,7 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i].insert(0, self._blocks[j][i].H)
 
         else:
-            self._blocks = copy(blocks)
+            self._blocks = [list(row) for row in blocks]
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockLinearOperator')
@@ -98,7 +97,7 @@ class BlockLinearOperator(LinearOperator):
 
             return y
 
-        flat_blocks = list(itertools.chain(*blocks))
+        flat_blocks = list(itertools.chain(*self._blocks))
         blk_dtypes = [blk.dtype for blk in flat_blocks]
         op_dtype = np.result_type(*blk_dtypes)
 
@@ -164,7 +163,7 @@ class BlockDiagonalLinearOperator(LinearOperator):
         hermitian = reduce(lambda x, y: x and y,
                            [blk.hermitian for blk in blocks])
 
-        self._blocks = blocks
+        self._blocks = list(blocks)
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockDiagonalLinearOperator')
-- 
2.43.0


From 1b0de9a5596937c80de05910194930bc80c65f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 08/58] fix: reject block operators whose columns of blocks
 have inconsistent shapes

---
 pykrylov/linop/blkop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 956d991..92e5461 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -48,9 +48,9 @@ class BlockLinearOperator(LinearOperator):
 
         nargins = [[blk.shape[-1] for blk in row] for row in self._blocks]
         log.debug('nargins = ' + repr(nargins))
-        nargins_by_row = [nargin[0] for nargin in nargins]
-        if min(nargins_by_row) != max(nargins_by_row):
-            raise ShapeError('Inconsistent block shapes')
+        for row in nargins:
+            if row != nargins[0]:
+                raise ShapeError('Inconsistent block shapes')
 
         nargouts = [[blk.shape[0] for blk in row] for row in self._blocks]
         log.debug('nargouts = ' + repr(nargouts))
-- 
2.43.0


From 858d423812f640ffdbfd90c14142133f5f2cc475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 09/58] fix: refresh the adjoint of a symmetric block operator
 after assigning a block

---
 pykrylov/linop/blkop.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 92e5461..53d4730 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -130,17 +130,17 @@ class BlockLinearOperator(LinearOperator):
     def __setitem__(self, indices, val):
         blks_mat = np.matrix(self._blocks, dtype=object)
         blks_mat.__setitem__(indices, val)
-        self._blocks = blks_mat.tolist()
+        blocks = blks_mat.tolist()
         if self.symmetric or self.hermitian:
-            for i in range(1, len(self._blocks)):
+            for i in range(1, len(blocks)):
                 for j in range(i):
                     if self.symmetric:
-                        self._blocks[i][j] = self._blocks[j][i].T
+                        blocks[i][j] = blocks[j][i].T
                     else:
-                        self._blocks[i][j] = self._blocks[j][i].H
-        else:
-            self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
-            self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+                        blocks[i][j] = blocks[j][i].H
+        self._blocks = blocks
+        self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
+        self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
 
     def __contains__(self, op):
         return op in list(itertools.chain(*self.blocks))
-- 
2.43.0


From 19c37016f894aee71a357df719d8388c63bce0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 10/58] fix: reject the assignment of a block of the wrong
 shape or symmetry

---
 pykrylov/linop/blkop.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 53d4730..0830839 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -138,6 +138,15 @@ class BlockLinearOperator(LinearOperator):
                         blocks[i][j] = blocks[j][i].T
                     else:
                         blocks[i][j] = blocks[j][i].H
+        for row, old_row in zip(blocks, self._blocks):
+            if [blk.shape for blk in row] != [blk.shape for blk in old_row]:
+                raise ShapeError('Inconsistent block shapes')
+        if self.symmetric or self.hermitian:
+            for i in range(len(blocks)):
+                if self.symmetric and not blocks[i][i].symmetric:
+                    raise ValueError('Blocks on diagonal must be symmetric.')
+                if self.hermitian and not blocks[i][i].hermitian:
+                    raise ValueError('Blocks on diagonal must be hermitian.')
         self._blocks = blocks
         self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
         self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
-- 
2.43.0


From 18dd33a40886c2d15a7f69594d85059fce043e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 11/58] fix: keep block diagonal operators consistent after
 assigning a block

---
 pykrylov/linop/blkop.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 0830839..49cbad6 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -257,11 +257,16 @@ class BlockDiagonalLinearOperator(LinearOperator):
                     if not isinstance(op, BaseLinearOperator):
                         msg = 'Block operators can only contain linear operators'
                         raise ValueError(msg)
-        self._blocks.__setitem__(idx, ops)
-        if not self.symmetric:
-            self._blocksT = [blk.T for blk in self._blocks]
-        if not self.hermitian:
-            self._blocksH = [blk.H for blk in self._blocks]
+        blocks = list(self._blocks)
+        blocks.__setitem__(idx, ops)
+        for blk in blocks:
+            if self.symmetric and not blk.symmetric:
+                raise ValueError('Blocks must be symmetric.')
+            if self.hermitian and not blk.hermitian:
+                raise ValueError('Blocks must be hermitian.')
+        self._blocks = blocks
+        self._blocksT = [blk.T for blk in self._blocks]
+        self._blocksH = [blk.H for blk in self._blocks]
 
 
 class BlockPreconditioner(BlockLinearOperator):
-- 
2.43.0


From 8d33bab9d0c8ee6e794f525515176fd607dfbd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 12/58] fix: the forward L-BFGS operator honors its scaling
 keyword

---
 pykrylov/linop/lbfgs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index f570bf6..420ff3f 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -154,6 +154,12 @@ class LBFGSOperator(InverseLBFGSOperator):
         b = np.zeros((self.n, self.npairs))
         a = np.zeros((self.n, self.npairs))
 
+        if self.scaling:
+            last = (self.insert - 1) % self.npairs
+            if ys[last] is not None:
+                self.gamma = ys[last] / np.dot(y[:, last], y[:, last])
+                q /= self.gamma
+
         # B = Σ aa' - bb'.
         for i in range(self.npairs):
             k = (self.insert + i) % self.npairs
@@ -161,7 +167,7 @@ class LBFGSOperator(InverseLBFGSOperator):
                 b[:, k] = y[:, k] / ys[k]**.5
                 bv = np.dot(b[:, k], v[:])
                 q += bv * b[:, k]
-                a[:, k] = s[:, k].copy()
+                a[:, k] = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % self.npairs
                     if ys[l] is not None:
-- 
2.43.0


From bea517bb6e18a64d58901ccace2e1318d522b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 13/58] fix: structured L-BFGS operators can be created and
 updated

---
 pykrylov/linop/lbfgs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 420ff3f..e212c7a 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -280,7 +280,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
                          done as 'method M3' in the LBFGS paper by Zhou and
                          Nocedal; the scaling factor is s'y/y'y (default: False).
         """
-        super(StructuredLBFGSOperator, self).__init__(self, n, npairs, **kwargs)
+        super(StructuredLBFGSOperator, self).__init__(n, npairs, **kwargs)
         self.yd = np.empty((self.n, self.npairs))
         self.accept_threshold = 1e-8
 
@@ -340,7 +340,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         | y_k' s_k + (y's s_k' B_k s_k)**.5 | >= 1e-8.
         """
         ys = np.dot(new_s, new_y)
-        Bs = self.matvec(new_s)
+        Bs = self.lbfgs_matvec(new_s)
         ypBs = ys + (ys * np.dot(new_s, Bs))**0.5
 
         if ypBs >= self.accept_threshold:
@@ -352,5 +352,5 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
             self.insert += 1
             self.insert = self.insert % self.npairs
         else:
-            self.log.debug('Rejecting (s,y) pair')
+            self.logger.debug('Rejecting (s,y) pair')
         return
-- 
2.43.0


From be12029dd3b1c173a1bf51e28ba45183813e84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 14/58] fix: structured L-BFGS update with more than one pair

---
 pykrylov/linop/lbfgs.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index e212c7a..ad14925 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -315,17 +315,17 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         for i in range(npairs):
             k = (self.insert + i) % npairs
             if ys[k] is not None:
-                coef = (self.gamma * ys[k] / np.dot(s[:, k], s[:, k]))**0.5
-                a[:, k] = y[:, k] + coef * s[:, k] / self.gamma
-                ad[:, k] = yd[:, k] - s[:, k] / self.gamma
+                # Product of the approximation so far with s[:, k].
+                Bs = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % npairs
                     if ys[l] is not None:
                         alTs = np.dot(a[:, l], s[:, k]) / aTs[l]
-                        adlTs = np.dot(ad[:, l], s[:, k])
-                        update = alTs / aTs[l] * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
-                        a[:, k] += coef * update
-                        ad[:, k] -= update
+                        adlTs = np.dot(ad[:, l], s[:, k]) / aTs[l]
+                        Bs += alTs * ad[:, l] + adlTs * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
+                coef = (ys[k] / np.dot(s[:, k], Bs))**0.5
+                a[:, k] = y[:, k] + coef * Bs
+                ad[:, k] = yd[:, k] - Bs
                 aTs[k] = np.dot(a[:, k], s[:, k])
                 adTs[k] = np.dot(ad[:, k], s[:, k])
                 aTv = np.dot(a[:, k], v[:])
-- 
2.43.0


From 72f3214588302f73003b715657879012ceccfe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 15/58] fix: preconditioned CG builds search directions from
 preconditioned residuals

---
 pykrylov/cg/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index d733de6..61abd7d 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -101,7 +101,7 @@ class CG( KrylovMethod ):
         self.residHistory.append(self.residNorm0)
         threshold = max(self.abstol, self.reltol * self.residNorm0)
 
-        p = -r   # Initial search direction (copy not to overwrite rhs if x=0)
+        p = -y   # Initial search direction (copy not to overwrite rhs if x=0)
 
         hdr_fmt = '%6s  %7s  %8s'
         hdr = hdr_fmt % ('Matvec', 'Resid', 'Curv')
@@ -148,7 +148,7 @@ class CG( KrylovMethod ):
             # Update search direction
             beta = ry_next/ry
             p *= beta
-            p -= r
+            p -= y
 
             ry = ry_next
             residNorm = np.abs(np.sqrt(ry))
-- 
2.43.0


From 5e386f29e30a393ebb1f4264f8e5d9063d11f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 16/58] fix: CG measures complex residuals with a proper inner
 product

---
 pykrylov/cg/cg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 61abd7d..588ff59 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -96,7 +96,7 @@ class CG( KrylovMethod ):
         if store_resids:
             self.resids.append(y.copy())
 
-        ry = np.dot(r,y)
+        ry = np.vdot(r,y)
         self.residNorm0 = residNorm = np.abs(np.sqrt(ry))
         self.residHistory.append(self.residNorm0)
         threshold = max(self.abstol, self.reltol * self.residNorm0)
@@ -114,7 +114,7 @@ class CG( KrylovMethod ):
 
             Ap  = self.op * p
             nMatvec += 1
-            pAp = np.dot(p, Ap)
+            pAp = np.vdot(p, Ap)
 
             if check_curvature:
                 if np.imag(pAp) > 1.0e-8 * np.abs(pAp) or np.real(pAp) <= 0:
@@ -143,7 +143,7 @@ class CG( KrylovMethod ):
                 self.resids.append(y.copy())
 
             # Update preconditioned residual norm
-            ry_next = np.dot(r,y)
+            ry_next = np.vdot(r,y)
 
             # Update search direction
             beta = ry_next/ry
-- 
2.43.0


From 21580ff93b01c684076e9fcd454867cbe3f1e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 17/58] fix: Bi-CGSTAB returns the iterate whose residual it
 reports when it stops halfway

---
 pykrylov/bicgstab/bicgstab.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 447e901..7dde43a 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -108,15 +108,11 @@ class BiCGSTAB( KrylovMethod ):
 
             self.logger.info('%6d  %8.2e' % (nMatvec, residNorm))
 
-            if residNorm <= threshold:
+            if residNorm <= threshold or nMatvec >= matvec_max:
                 x += alpha * q
                 finished = True
                 continue
 
-            if nMatvec >= matvec_max:
-                finished = True
-                continue
-
             if self.precon is not None:
                 z = self.precon * s
             else:
-- 
2.43.0


From a96766bfa7b29857e6cf5bf93bafab43c901d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 18/58] fix: Bi-CGSTAB measures complex residuals with a proper
 inner product

---
 pykrylov/bicgstab/bicgstab.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 7dde43a..a33be5d 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -65,8 +65,8 @@ class BiCGSTAB( KrylovMethod ):
             nMatvec += 1
 
         rho = alpha = omega = 1.0
-        rho_next = np.dot(r0,r0)
-        residNorm = self.residNorm0 = np.abs(np.sqrt(rho_next))
+        rho_next = np.vdot(r0,r0)
+        residNorm = self.residNorm0 = np.linalg.norm(r0)
         threshold = max( self.abstol, self.reltol * self.residNorm0 )
 
         finished = (residNorm <= threshold or nMatvec >= matvec_max)
@@ -100,7 +100,7 @@ class BiCGSTAB( KrylovMethod ):
 
             v = self.op * q ; nMatvec += 1
 
-            alpha = rho/np.dot(r0, v)
+            alpha = rho/np.vdot(r0, v)
             s = r - alpha * v
 
             # Check for CGS termination
@@ -119,8 +119,8 @@ class BiCGSTAB( KrylovMethod ):
                 z = s
 
             t = self.op * z ; nMatvec += 1
-            omega = np.dot(t,s)/np.dot(t,t)
-            rho_next = -omega * np.dot(r0,t)
+            omega = np.vdot(t,s)/np.vdot(t,t)
+            rho_next = -omega * np.vdot(r0,t)
 
             # Update residual
             r = s - omega * t
-- 
2.43.0


From 03cb5e8b182a65da6dea12bc5de3ab4e0195264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 19/58] fix: CGS measures complex residuals with a proper inner
 product

---
 pykrylov/cgs/cgs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a878699..a6121cc 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -59,8 +59,8 @@ class CGS( KrylovMethod ):
         if guess_supplied:
             r0 = rhs - self.op * x
 
-        rho = np.dot(r0,r0)
-        residNorm = np.abs(np.sqrt(rho))
+        rho = np.vdot(r0,r0)
+        residNorm = np.linalg.norm(r0)
         self.residNorm0 = residNorm
         threshold = max( self.abstol, self.reltol * self.residNorm0 )
         self.logger.info('Initial residual = %8.2e\n' % self.residNorm0)
@@ -81,7 +81,7 @@ class CGS( KrylovMethod ):
                 y = p
 
             v = self.op * y ; nMatvec += 1
-            sigma = np.dot(r0,v)
+            sigma = np.vdot(r0,v)
             alpha = rho/sigma
             q = u - alpha * v
 
@@ -102,7 +102,7 @@ class CGS( KrylovMethod ):
                 finished = True
                 continue
 
-            rho_next = np.dot(r0,r)
+            rho_next = np.vdot(r0,r)
             beta = rho_next/rho
             rho = rho_next
             u = r + beta * q
-- 
2.43.0


From d36685c6ee62605c2a867bc2a42a66b34ce142d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 20/58] fix: TFQMR measures complex residuals with a proper
 inner product

---
 pykrylov/tfqmr/tfqmr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 5f2e55d..bcdd481 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -58,8 +58,8 @@ class TFQMR( KrylovMethod ):
         if guess_supplied:
             r0 = rhs - self.op * x
 
-        rho = np.dot(r0,r0)
-        residNorm = np.abs(np.sqrt(rho))
+        rho = np.vdot(r0,r0)
+        residNorm = np.linalg.norm(r0)
         self.residNorm0 = residNorm
         threshold = max( self.abstol, self.reltol * self.residNorm0 )
         self.logger.info('Initial residual = %8.2e' % self.residNorm0)
@@ -85,7 +85,7 @@ class TFQMR( KrylovMethod ):
         while not finished:
 
             k += 1
-            sigma = np.dot(r0,v)
+            sigma = np.vdot(r0,v)
             alpha = rho/sigma
 
             # First pass
@@ -125,7 +125,7 @@ class TFQMR( KrylovMethod ):
                 continue
 
             # Final updates
-            rho_next = np.dot(r0,w)
+            rho_next = np.vdot(r0,w)
             beta = rho_next/rho
             rho = rho_next
 
-- 
2.43.0


From 2a907b613480332e7c6730d18a9d61ded99cfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 21/58] fix: CGS counts all its operator-vector products and
 respects their limit

---
 pykrylov/cgs/cgs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a6121cc..7784fa7 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -44,7 +44,7 @@ class CGS( KrylovMethod ):
 
         :keywords:
             :guess:      Initial guess (Numpy array, default: 0)
-            :matvec_max: Max. number of matrix-vector produts (2n)
+            :matvec_max: Max. number of matrix-vector produts (2n, or 2n+1 with a guess)
         """
         n = rhs.shape[0]
         nMatvec = 0
@@ -53,11 +53,12 @@ class CGS( KrylovMethod ):
         result_type = np.result_type(self.op.dtype, rhs.dtype)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
-        matvec_max = kwargs.get('matvec_max', 2*n)
+        matvec_max = kwargs.get('matvec_max', 2*n + guess_supplied)
 
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.vdot(r0,r0)
         residNorm = np.linalg.norm(r0)
@@ -66,7 +67,7 @@ class CGS( KrylovMethod ):
         self.logger.info('Initial residual = %8.2e\n' % self.residNorm0)
         self.logger.info('Threshold = %8.2e\n' % threshold)
 
-        finished = (residNorm <= threshold or nMatvec >= matvec_max)
+        finished = (residNorm <= threshold or nMatvec + 2 > matvec_max)
 
         if not finished:
             r = r0.copy()   # Initial residual vector
@@ -98,7 +99,7 @@ class CGS( KrylovMethod ):
             # Update residual norm and check convergence
             residNorm = np.linalg.norm(r)
 
-            if residNorm <= threshold or nMatvec >= matvec_max:
+            if residNorm <= threshold or nMatvec + 2 > matvec_max:
                 finished = True
                 continue
 
-- 
2.43.0


From 4a4c5a25266f9e4a43661319a94a6184aeaf4c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 22/58] fix: TFQMR counts all its operator-vector products

---
 pykrylov/tfqmr/tfqmr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index bcdd481..9277b0b 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -43,7 +43,7 @@ class TFQMR( KrylovMethod ):
 
         :keywords:
             :guess:      Initial guess (Numpy array, default: 0)
-            :matvec_max: Max. number of matrix-vector produts (2n)
+            :matvec_max: Max. number of matrix-vector produts (2n, or 2n+1 with a guess)
         """
         n = rhs.shape[0]
         nMatvec = 0
@@ -52,11 +52,12 @@ class TFQMR( KrylovMethod ):
         result_type = np.result_type(self.op.dtype, rhs.dtype)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
-        matvec_max = kwargs.get('matvec_max', 2*n)
+        matvec_max = kwargs.get('matvec_max', 2*n + guess_supplied)
 
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.vdot(r0,r0)
         residNorm = np.linalg.norm(r0)
-- 
2.43.0


From 45592e27b960f0058ed32e76b745a1777fa28589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 23/58] fix: TFQMR handles a right-hand side or guess that is
 already good enough

---
 pykrylov/tfqmr/tfqmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 9277b0b..44403df 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -67,6 +67,7 @@ class TFQMR( KrylovMethod ):
         self.logger.info('Threshold = %8.2e' % threshold)
 
         finished = (residNorm <= threshold or nMatvec >= matvec_max)
+        m = 0.0
 
         if not finished:
             y = r0.copy()   # Initial residual vector
@@ -154,7 +155,7 @@ class TFQMR( KrylovMethod ):
             self.logger.info('%5d  %8.2e' % (nMatvec, residNorm))
 
 
-        self.converged = residNorm * np.sqrt(m+1) < threshold
+        self.converged = residNorm * np.sqrt(m+1) <= threshold
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
-- 
2.43.0


From 786bf381dd026d8eb3049aee8dc4a80ac38ddbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 24/58] fix: iterative methods accept integer right-hand sides

---
 pykrylov/bicgstab/bicgstab.py | 4 ++--
 pykrylov/cg/cg.py             | 4 ++--
 pykrylov/cgs/cgs.py           | 4 ++--
 pykrylov/tfqmr/tfqmr.py       | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index a33be5d..ded6923 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -53,13 +53,13 @@ class BiCGSTAB( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, np.float32)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual is the fixed vector
-        r0 = rhs
+        r0 = rhs.astype(result_type)
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 588ff59..0f1da17 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -72,7 +72,7 @@ class CG( KrylovMethod ):
                 return
 
         # Initial guess
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, np.float32)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
 
@@ -82,7 +82,7 @@ class CG( KrylovMethod ):
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual vector
-        r = -rhs
+        r = -rhs.astype(result_type)
         if guess_supplied:
             r += self.op * x
             nMatvec += 1
diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index 7784fa7..97b01bd 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -50,12 +50,12 @@ class CGS( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, np.float32)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n + guess_supplied)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 44403df..5b6db9e 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -49,12 +49,12 @@ class TFQMR( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, np.float32)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n + guess_supplied)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
-- 
2.43.0


From 962374ae9731d5980d26a402e72532ae13418071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 25/58] fix: MINRES uses the preconditioner given to its
 constructor

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ab9bb5d..151135f 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -118,7 +118,7 @@ class Minres(KrylovMethod):
         n = b.shape[0]
 
         # Read keyword arguments
-        precon = kwargs.get('precon', None)
+        precon = kwargs.get('precon', self.precon)
         shift  = kwargs.get('shift',  0.0)
         show   = kwargs.get('show',   True)
         check  = kwargs.get('check',  True)
-- 
2.43.0


From a76c77451e9beb42304909f1661be0a81e68846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 26/58] fix: MINRES stops when the right-hand side is an
 eigenvector

---
 pykrylov/minres/minres.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 151135f..1b79122 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -378,9 +378,9 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
-                if (itn % 10)==0: print ' '
+                if show and (itn % 10)==0: print ' '
 
         # Display final status.
 
@@ -392,7 +392,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [1,2,3,4,10]
+        self.converged = istop in [-1,1,2,3,4,10] or beta1 == 0
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From f3706a01f1f07a2598f3ddd2fae0cd1d37a37058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 27/58] fix: MINRES reports an indefinite preconditioner and
 its initial residual properly

---
 pykrylov/minres/minres.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 1b79122..1840c3c 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -178,9 +178,7 @@ class Minres(KrylovMethod):
 
         if beta1 > 0:
             beta1 = sqrt(beta1);       # Normalize y to get v1 later.
-        self.residNorm0 = beta1
-
-        self.residNorm0 = beta1        # Initial residual norm.
+        self.residNorm0 = rnorm = beta1        # Initial residual norm.
 
         # See if A is symmetric.
         if check:
@@ -250,7 +248,7 @@ class Minres(KrylovMethod):
                 oldb   = beta
                 beta   = dot(r2,y)
                 if beta < 0:
-                    istop = 6
+                    istop = 9
                     break
                 beta   = sqrt(beta)
                 tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
-- 
2.43.0


From bc1c71362676d3ccc7290bb262fdcb2cb368173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 28/58] fix: SYMMLQ multiplies with its operator

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index a756d45..4b5f86e 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -159,7 +159,7 @@ class Symmlq(KrylovMethod) :
             s     = 1.0 / beta1
             v     = s * y
 
-            y = self.matvec(v) ; nMatvec += 1
+            y = self.op * v ; nMatvec += 1
             if check:
                 r2 = self.op * y  # Do not count this matrix-vector product
                 s = np.dot(y,y)
-- 
2.43.0


From d7c232a6263892e8b653f9072b1fc2c6a0fc82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 29/58] fix: SYMMLQ handles a zero right-hand side and early
 exits

---
 pykrylov/symmlq/symmlq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 4b5f86e..19e9df0 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -133,6 +133,8 @@ class Symmlq(KrylovMethod) :
             y = rhs.copy()
         b1 = y[0] ; beta1 = np.dot(r1, y)
 
+        cgnorm = lqnorm = qrnorm = bstep = x1cg = 0
+
         # Ensure preconditioner is symmetric.
 
         if check and self.precon is not None:
@@ -223,7 +225,7 @@ class Symmlq(KrylovMethod) :
         self.logger.info(head1 + head2)
 
         str1 = '%6g %12.5e %10.3e' % (itn, x1cg, cgnorm)
-        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep/beta1)
+        str2 = ' %10.3e  %8.1e' %    (qrnorm, 0)
         self.logger.info(str1 + str2)
 
         # ------------------------------------------------------------------
@@ -366,7 +368,7 @@ class Symmlq(KrylovMethod) :
 
         # Add the step along b.
 
-        bstep  = bstep / beta1
+        if beta1 > 0: bstep = bstep / beta1
         if self.precon is not None:
             y = self.precon * rhs
         else:
-- 
2.43.0


From 3d251aaec4b17b011b044dbcf5139c30737958be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 30/58] fix: SYMMLQ detects the limit on operator-vector
 products before moving to the CG point

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 19e9df0..205a72d 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -234,7 +234,7 @@ class Symmlq(KrylovMethod) :
         # Estimate various norms and test for convergence.
 
         if not done:
-            while nMatvec < matvec_max:
+            while nMatvec <= matvec_max:
                 itn    = itn  +  1
                 anorm  = np.sqrt(tnorm)
                 ynorm  = np.sqrt(ynorm2)
-- 
2.43.0


From 07741c25e8a24bd4e1cabc5cd276c04b8faff4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 31/58] fix: SYMMLQ reports whether it converged

---
 pykrylov/symmlq/symmlq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 205a72d..7108c61 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -313,7 +313,7 @@ class Symmlq(KrylovMethod) :
                 beta = np.dot(r2, y)
 
                 if beta < 0:
-                    istop = 6
+                    istop = 8
                     break
 
                 beta  = np.sqrt(beta)
@@ -395,6 +395,8 @@ class Symmlq(KrylovMethod) :
         self.logger.info(last + fmt % (rnorm, xnorm))
         self.logger.info(last + msg[istop])
 
+        self.converged = istop in [-1,0,1,2]
+        self.istop = istop
         self.nMatvec = nMatvec
         self.bestSolution = x ; self.solutionNorm = xnorm
         self.x = self.bestSolution ; self.xNorm = xnorm
-- 
2.43.0


From 0ea16e8c93e7798eab563a56534808a01bbfe52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 32/58] fix: LSQR honors its limit on the condition number

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 2cb1297..58d5c62 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -160,7 +160,7 @@ class LSQRFramework(KrylovMethod):
 
         itn = istop = 0
         ctol = 0.0
-        if conlim > 0.0: self.ctol = 1.0/conlim
+        if conlim > 0.0: ctol = 1.0/conlim
         Anorm = Acond = 0.
         z = xnorm = xxnorm = ddnorm = res2 = 0.
         cs2 = -1. ; sn2 = 0.
-- 
2.43.0


From 395211ea71cec84048370355ae3fcc82674844fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 33/58] fix: LSQR and CRAIG accept wantvar

---
 pykrylov/lls/craig.py | 2 +-
 pykrylov/lls/lsqr.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 22592ae..4c1ccd5 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -176,7 +176,7 @@ class CRAIGFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 58d5c62..c591cb1 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -152,7 +152,7 @@ class LSQRFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
-- 
2.43.0


From 9d83e5a7f1ab59f5e60cb954cd71d427c6f5c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 34/58] fix: LSQR reports the zero solution as optimal

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index c591cb1..a0291b2 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -438,7 +438,7 @@ class LSQRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From 7da10f17398ae3d5ffdf6a199d068b401ddd8703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 35/58] fix: LSQR's r1norm matches the current iterate when
 damping is on

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index a0291b2..c8b50ed 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -350,7 +350,7 @@ class LSQRFramework(KrylovMethod):
             #    r1norm = sqrt(r2norm^2 - damp^2*||x||^2).
             # Although there is cancellation, it might be accurate enough.
 
-            r1sq    =   rnorm**2  -  dampsq * xxnorm
+            r1sq    =   rnorm**2  -  dampsq * xnorm**2
             r1norm  =   sqrt(abs(r1sq))
             if r1sq < 0: r1norm = - r1norm
             r2norm  =   rnorm
-- 
2.43.0


From 1463bfb8b6b557d649f1512f9b33f8e006b87489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 36/58] fix: LSMR records its results, including when the
 solution is zero

---
 pykrylov/lls/lsmr.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 05d1c59..4c483e2 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -284,12 +284,12 @@ class LSMRFramework(KrylovMethod):
         if normar == 0:
             if show:
                 print msg[0]
-            return x, istop, itn, normr, normar, normA, condA, normx
+            itnlim = 0    # Nothing to iterate on.
 
         if show:
             print ' '
             print hdg1, hdg2
-            test1  = 1;             test2  = alpha / beta
+            test1  = 1;             test2  = alpha / beta if beta > 0 else 1
             str1   = '%6g %12.5e'    %(    itn,   x[0] )
             str2   = ' %10.3e %10.3e'%(  normr, normar )
             str3   = '  %8.1e %8.1e' %(  test1,  test2 )
@@ -488,7 +488,16 @@ class LSMRFramework(KrylovMethod):
             print str3, str4
             print 'Estimated energy norm of x: %7.1e' % sqrt(xNrgNorm2)
 
-        self.x = x
+        self.optimal = istop in [0,1,2,4,5,8]
+        self.x = self.bestSolution = x
+        self.istop = istop
+        self.itn = itn
+        self.nMatvec = 2*itn
+        self.residNorm = normr
+        self.Anorm = normA
+        self.Acond = condA
+        self.Arnorm = normar
+        self.xnorm = normx
         return x, istop, itn, normr, normar, normA, condA, normx
 
 
-- 
2.43.0


From e388b4bd7d5168778a0f1a1f1ce4de90fe5d4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 37/58] fix: LSMR does not divide by a zero residual

---
 pykrylov/lls/lsmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 4c483e2..25303e1 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, inf
 from numpy.linalg import norm
 from math import sqrt
 
@@ -420,7 +420,7 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            test2   = normar/(normA*normr) if normA*normr != 0 else inf
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
-- 
2.43.0


From 90aaf694a5efa847d467a5ac0ef3b6b7ee259e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 38/58] fix: CRAIG handles a zero right-hand side

---
 pykrylov/lls/craig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 4c1ccd5..eda7ab1 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -215,7 +215,8 @@ class CRAIGFramework(KrylovMethod):
         else:
             u = Mu
 
-        alpha = 0.
+        v = zeros(n)
+        alpha = Arnorm = 0.
         beta = sqrt(dot(u,Mu))       # norm(u)
         if beta > 0:
             u /= beta
-- 
2.43.0


From 5023f5822c0f7b124732095943fda61b955a59fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 39/58] fix: CRAIG-MR no longer prints its internals

---
 pykrylov/lls/craigmr.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 12ecbed..fc22180 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -187,7 +187,6 @@ class CRAIGMRFramework(KrylovMethod):
             zeta     = c_hat * zeta_hat
             zeta_hat = s_hat * zeta_hat
             xNrgNorm2 += zeta * zeta
-            print itn, xNrgNorm2
             d = (u - beta_hat * d) / alpha_hat
             x += zeta * dbar
 
-- 
2.43.0


From 08893be5a78da3f258faf56babbda5a56c4584f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 40/58] fix: least-squares methods accept integer right-hand
 sides

---
 pykrylov/lls/craig.py   | 2 +-
 pykrylov/lls/craigmr.py | 2 +-
 pykrylov/lls/lsmr.py    | 2 +-
 pykrylov/lls/lsqr.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index eda7ab1..ad4daa8 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -209,7 +209,7 @@ class CRAIGFramework(KrylovMethod):
         dErr = zeros(window)     # Truncated direct error terms.
         trncDirErr = 0           # Truncated direct error.
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(float)
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index fc22180..05f3f7f 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -72,7 +72,7 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()  # Don't want to change input vector.
+        Mu = b.astype(float)  # Don't want to change input vector.
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 25303e1..f371a0b 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -207,7 +207,7 @@ class LSMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()
+        Mu = b.astype(float)
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index c8b50ed..fc3dfba 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -185,7 +185,7 @@ class LSQRFramework(KrylovMethod):
         if store_iterates:
             self.iterates.append(x.copy())
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(float)
         if M is not None:
             u = M(Mu)
         else:
-- 
2.43.0


From d6112016934748ab7dca5f1d42efcfcecd2770fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 41/58] fix: LSMR does not claim an optimal solution when no
 iteration is allowed

---
 pykrylov/lls/lsmr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index f371a0b..77060f1 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -285,6 +285,8 @@ class LSMRFramework(KrylovMethod):
             if show:
                 print msg[0]
             itnlim = 0    # Nothing to iterate on.
+        elif itnlim <= 0:
+            istop = 7
 
         if show:
             print ' '
-- 
2.43.0


From 3829b2a14e9db5d70675aecb21b4c9ec8c0a1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 42/58] fix: TFQMR stops when its residual vanishes and the
 tolerances are zero

---
 pykrylov/tfqmr/tfqmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 5b6db9e..2151762 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -100,7 +100,7 @@ class TFQMR( KrylovMethod ):
             eta = c * c * alpha
             x += eta * d
             m = 2.0 * k - 1.0
-            if residNorm * np.sqrt(m+1) < threshold or nMatvec >= matvec_max:
+            if residNorm * np.sqrt(m+1) <= threshold or nMatvec >= matvec_max:
                 finished = True
                 continue
 
@@ -122,7 +122,7 @@ class TFQMR( KrylovMethod ):
             residNorm *= theta * c
             eta = c * c * alpha
             x += eta * d
-            if residNorm * np.sqrt(m+1) < threshold or nMatvec >= matvec_max:
+            if residNorm * np.sqrt(m+1) <= threshold or nMatvec >= matvec_max:
                 finished = True
                 continue
 
-- 
2.43.0


From d2ce7febd17aed0f9bc197a3c2d89bf98a3ebd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 43/58] fix: MINRES reports its limit when no iteration is
 allowed

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 1840c3c..af3729b 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -214,6 +214,7 @@ class Minres(KrylovMethod):
         # ---------------------------------------------------------------------
         # Main iteration loop.
         # --------------------------------------------------------------------
+        if not done and itnlim <= 0: istop = 6
         if not done:                          # k = itn = 1 first time through
             while itn < itnlim:
                 itn = itn  +  1
-- 
2.43.0


From e890d78ee8ce1aef058736321aebaf30710b8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 44/58] fix: apply the L-BFGS operators to complex and integer
 vectors

---
 pykrylov/linop/lbfgs.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index ad14925..c49ac07 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -54,7 +54,6 @@ class InverseLBFGSOperator(LinearOperator):
         self.s = np.empty((self.n, self.npairs), 'd')
         self.y = np.empty((self.n, self.npairs), 'd')
 
-        self.alpha = np.empty(self.npairs, 'd')    # multipliers
         self.ys = [None] * self.npairs             # dot products si'yi
         self.gamma = 1.0
 
@@ -101,11 +100,11 @@ class InverseLBFGSOperator(LinearOperator):
         positive-definite approximation to the inverse Hessian matrix and the
         vector v using the LBFGS two-loop recursion formula.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, self.dtype))
         s = self.s
         y = self.y
         ys = self.ys
-        alpha = self.alpha
+        alpha = np.zeros(self.npairs, dtype=q.dtype)
         for i in range(self.npairs):
             k = (self.insert - 1 - i) % self.npairs
             if ys[k] is not None:
@@ -147,7 +146,7 @@ class LBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, self.dtype))
         s = self.s
         y = self.y
         ys = self.ys
@@ -201,13 +200,13 @@ class CompactLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and caching key dot products.
         """
-        q = v.copy()
-        r = v.copy()
+        q = v.astype(np.result_type(v.dtype, self.dtype))
+        r = q.copy()
         s = self.s
         y = self.y
         ys = self.ys
         prodn = 2 * self.npairs
-        a = np.zeros(prodn)
+        a = np.zeros(prodn, dtype=q.dtype)
         minimat = np.zeros([prodn, prodn])
 
         if self.scaling:
@@ -294,7 +293,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, self.dtype))
         s = self.s
         y = self.y
         yd = self.yd
-- 
2.43.0


From c214b2b45f3eeff551cd816f254fd44982daa231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 45/58] fix: start each CG solve with an empty history

---
 pykrylov/cg/cg.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 0f1da17..3cd48ec 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -66,6 +66,12 @@ class CG( KrylovMethod ):
         store_resids = kwargs.get('store_resids', False)
         store_iterates = kwargs.get('store_iterates', False)
 
+        # Reinitialize internal data for multiple solves.
+        self.residHistory = []
+        self.resids = []
+        self.iterates = []
+        self.infiniteDescent = None
+
         if check_sym:
             if not check_symmetric(self.op):
                 self.logger.error('Coefficient operator is not symmetric')
-- 
2.43.0


From 1d0d4036c1fb7ff4b0606090db2d329e065902e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 46/58] fix: start each MINRES solve with an empty residual
 history

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index af3729b..0153c0f 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -129,6 +129,7 @@ class Minres(KrylovMethod):
         store_iterates = kwargs.get('store_iterates', False)
         window = kwargs.get('window', 5)
 
+        self.residHistory = []     # Residual norms.
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
 
-- 
2.43.0


From 5e5cca135d1b82599dca88d5514de0490a8952ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 47/58] fix: let MINRES report how its last solve ended

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 0153c0f..9c70932 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -393,6 +393,7 @@ class Minres(KrylovMethod):
             print last+self.msg[istop+1]
 
         self.converged = istop in [-1,1,2,3,4,10] or beta1 == 0
+        self.status = self.msg[istop+1].strip()
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From 864ba93996ece45207e45e08beb35a3a9545b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 48/58] fix: start each SYMMLQ solve with an empty list of
 iterates

---
 pykrylov/symmlq/symmlq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 7108c61..0e0a55d 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -93,6 +93,8 @@ class Symmlq(KrylovMethod) :
         eps = machine_epsilon()
         store_iterates = kwargs.get('store_iterates', False)
 
+        self.iterates = []
+
         first = 'Enter SYMMLQ.   '
         last  = 'Exit  SYMMLQ.   '
         space = ' '
-- 
2.43.0


From aa0ba2ac40606149fc57000cac78d048aa55cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 49/58] fix: LSMR takes None for damp, atol, btol and conlim,
 as documented

---
 pykrylov/lls/lsmr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 77060f1..bc355fb 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -192,6 +192,10 @@ class LSMRFramework(KrylovMethod):
         minDim = min([m, n])
 
         if itnlim is None: itnlim = minDim
+        if damp is None: damp = 0.0
+        if atol is None: atol = 1.0e-6
+        if btol is None: btol = 1.0e-6
+        if conlim is None: conlim = 1.0e+8
 
         if show:
             print ' '
-- 
2.43.0


From 86052e8836ca6b27a11f83b26150ac28c2cce94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 50/58] fix: assigning a block of a wider type updates the type
 of a block operator

---
 pykrylov/linop/blkop.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 49cbad6..7ba9cfe 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -1,9 +1,18 @@
 from pykrylov.linop import BaseLinearOperator, LinearOperator
 from pykrylov.linop import ShapeError, null_log
 import numpy as np
+from pykrylov.tools.types import complex_types
 import itertools
 
 
+def _widen(op, dtypes):
+    "Widen the type of the block operator `op` to hold blocks of types `dtypes`."
+    dtype = np.result_type(op.dtype, *dtypes)
+    if dtype in complex_types and op.dtype not in complex_types:
+        raise TypeError('Complex blocks do not fit in a real operator.')
+    op.dtype = op.T.dtype = op.H.dtype = dtype
+
+
 class BlockLinearOperator(LinearOperator):
     """
     A linear operator defined by blocks. Each block must be a linear operator.
@@ -147,6 +156,7 @@ class BlockLinearOperator(LinearOperator):
                     raise ValueError('Blocks on diagonal must be symmetric.')
                 if self.hermitian and not blocks[i][i].hermitian:
                     raise ValueError('Blocks on diagonal must be hermitian.')
+        _widen(self, [blk.dtype for row in blocks for blk in row])
         self._blocks = blocks
         self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
         self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
@@ -264,6 +274,7 @@ class BlockDiagonalLinearOperator(LinearOperator):
                 raise ValueError('Blocks must be symmetric.')
             if self.hermitian and not blk.hermitian:
                 raise ValueError('Blocks must be hermitian.')
+        _widen(self, [blk.dtype for blk in blocks])
         self._blocks = blocks
         self._blocksT = [blk.T for blk in self._blocks]
         self._blocksH = [blk.H for blk in self._blocks]
-- 
2.43.0


From 5941596c7a3e7501b22050126acd4b5b7397ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 51/58] fix: CRAIG counts the first component in the energy
 norms of its iterates

---
 pykrylov/lls/craig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index ad4daa8..4f93d50 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -204,8 +204,6 @@ class CRAIGFramework(KrylovMethod):
 
         r = zeros(m)
         x = zeros(n)
-        rNrgNorm2 = 0.0
-        xNrgNorm2 = 0.0          # Squared energy norm of final solution.
         dErr = zeros(window)     # Truncated direct error terms.
         trncDirErr = 0           # Truncated direct error.
 
@@ -250,6 +248,7 @@ class CRAIGFramework(KrylovMethod):
         tau   = beta / rho
         r     = tau * d
         rnorm = tau * tau
+        rNrgNorm2 = tau * tau
 
         # Primal variable initialization.
         c     = alpha / rho
@@ -261,6 +260,7 @@ class CRAIGFramework(KrylovMethod):
         wbar  = s * v
         x     = zeta * w
         xnorm = eta * eta
+        xNrgNorm2 = zeta * zeta  # Squared energy norm of final solution.
 
         #rnorm  = zeta * zeta    # = ||b - Ax||^2_M + \|x\|^2_N.
         r1norm = xi * xi        # = ||b - Ax||^2_M.
-- 
2.43.0


From ceae1123da1656114b353d691ac8e6c5b5b8d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 52/58] fix: CRAIG-MR records the residual of the current
 iterate

---
 pykrylov/lls/craigmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 05f3f7f..4e8cfb2 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -195,7 +195,7 @@ class CRAIGMRFramework(KrylovMethod):
 
             if store_resids:
                 self.norms.append(xNrgNorm2)
-                self.normal_eqns_resids.append(abs(zeta))
+                self.normal_eqns_resids.append(abs(zeta_hat))
 
             # See if it's time to stop.
             dErr[itn % window] = zeta
-- 
2.43.0


From 0df79388a4284f5038a6551e467dd8442c1795c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 53/58] fix: CRAIG-MR reports its limit when no iteration is
 allowed

---
 pykrylov/lls/craigmr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 4e8cfb2..5fd2208 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -120,6 +120,7 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Items for use in stopping rules.
         istop = 0
+        if beta > 0 and itnlim <= 0: istop = 7
 
         if store_resids:
             self.norms.append(xNrgNorm2)
-- 
2.43.0


From 1e98640de9ff5f06f48ecaf18f1c94acb8448cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 54/58] fix: CRAIG and CRAIG-MR report the zero solution as
 optimal

---
 pykrylov/lls/craig.py   | 2 +-
 pykrylov/lls/craigmr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 4f93d50..63fae8e 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -504,7 +504,7 @@ class CRAIGFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.r = r
         self.istop = istop
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 5fd2208..3782732 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -234,7 +234,7 @@ class CRAIGMRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From 006702d64a047b1cb31f832b167baf4b6bb9e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 55/58] fix: SYMMLQ reports its limit when no iteration is
 allowed

---
 pykrylov/symmlq/symmlq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 0e0a55d..dd9f9fe 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -235,6 +235,8 @@ class Symmlq(KrylovMethod) :
         # ------------------------------------------------------------------
         # Estimate various norms and test for convergence.
 
+        if not done and nMatvec > matvec_max: istop = 5
+
         if not done:
             while nMatvec <= matvec_max:
                 itn    = itn  +  1
-- 
2.43.0


From f191638dc6ae8562dc90b4325e96dcba4aff35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 56/58] fix: SYMMLQ keeps its verdict on an unsymmetric
 preconditioner

The status set by the check of the preconditioner was overwritten when the
Lanczos process ended at the first step, and the run reported as converged.
---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index dd9f9fe..9287c08 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -199,7 +199,7 @@ class Symmlq(KrylovMethod) :
             #  Cause termination (later) if beta is essentially zero.
 
             beta = np.sqrt(beta)
-            if beta <= eps:
+            if beta <= eps and not done:
                 istop = -1
 
             #  See if the local reorthogonalization achieved anything.
-- 
2.43.0


From dfe2319909bb328cb6b91d2a94225ac4c70bf899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 57/58] fix: CG leaves no earlier results standing when it
 refuses an operator

With check_symmetric an unsymmetric operator is refused; the solution, the
residual norm and the converged flag of an earlier run were left in place.
---
 pykrylov/cg/cg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 3cd48ec..269006c 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -75,6 +75,10 @@ class CG( KrylovMethod ):
         if check_sym:
             if not check_symmetric(self.op):
                 self.logger.error('Coefficient operator is not symmetric')
+                self.nMatvec = 0
+                self.converged = False
+                self.bestSolution = self.x = None
+                self.residNorm = self.residNorm0 = None
                 return
 
         # Initial guess
-- 
2.43.0


From 886ca2ab28ff162176859418552581112521cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 58/58] fix: LSMR's condition estimate leaves out the initial
 value of rhobar

The initial value is no pivot of the problem; with it the estimate was at
least 1/norm(A), and a small well conditioned operator stopped the method
with istop 3.
---
 pykrylov/lls/lsmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index bc355fb..7770210 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -411,8 +411,8 @@ class LSMRFramework(KrylovMethod):
             normA2        = normA2 + alpha*alpha
 
             # Estimate cond(A).
-            maxrbar       = max(maxrbar,rhobarold)
             if itn>1:
+              maxrbar     = max(maxrbar,rhobarold)
               minrbar     = min(minrbar,rhobarold)
             condA         = max(maxrbar,rhotemp)/min(minrbar,rhotemp)
 
-- 
2.43.0

