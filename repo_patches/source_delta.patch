From d4585df3781ca35a7820e1734afe69e76cac01a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:08 +0000
Subject: [PATCH 01/31] fix: boundary of an open one-dimensional simplicial
 topology

from_simplices could not construct the zero-dimensional topology bounding an
open chain of edges; boundary, is_closed and dual raised an AssertionError,
and the selectors took the end points to be interior.
---
 pycomplex/topology/simplicial.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 269d94c..9296d41 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -165,7 +165,7 @@ class TopologySimplicial(PrimalTopology):
         O = np.zeros(n_dim, dtype=object)
         B = np.zeros(n_dim, dtype=object)
 
-        while True:
+        while n_dim > 0:
             EN0, ENn, ONn = construct_lower(EN0)
             n_simplices, n_pts = EN0.shape
             n_dim = n_pts - 1
@@ -174,9 +174,6 @@ class TopologySimplicial(PrimalTopology):
             O[N] = ONn
             B[N] = ENn
 
-            if n_dim == 0:
-                break
-
         return cls(elements=E, orientation=O, boundary=B)
 
     def fix_orientation(self):
-- 
2.43.0


From 3dab4876240ab9c8bda0ff59348707045d826663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:30 +0000
Subject: [PATCH 02/31] fix: a zero-dimensional topology is closed

boundary and is_closed of the point sets that bound one-dimensional
topologies raised an IndexError.
---
 pycomplex/topology/primal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 3d2e041..b2ad75d 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -201,6 +201,10 @@ class PrimalTopology(BaseTopology):
         # shouldnt be too hard; just find chains on all elements, select subsets, and remap vertex indices
         # FIXME: not sure boundary orientation is even preserved in current implementation
         # in practice, this appears to be very much the case
+        if self.n_dim == 0:
+            # points do not have a boundary
+            return None
+
         if not self.is_oriented:
             raise ValueError('Cannot get the boundary of a non-oriented manifold')
 
-- 
2.43.0


From a4ad05d16f4b2091b1ab88f10f44d261d4b810e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:59 +0000
Subject: [PATCH 03/31] fix: topology selectors hide a failed boundary
 computation

A bare except took any failure while deriving the boundary (an interrupt, a
failed allocation) to mean that there is no boundary, and the wrong selector
was then cached. Only the absence of an orientation means that.
---
 pycomplex/topology/__init__.py |  5 +++++
 pycomplex/topology/base.py     |  4 ++--
 pycomplex/topology/primal.py   | 31 +++++++++++++++++++++----------
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/pycomplex/topology/__init__.py b/pycomplex/topology/__init__.py
index 6f14609..6d738a4 100755
--- a/pycomplex/topology/__init__.py
+++ b/pycomplex/topology/__init__.py
@@ -12,3 +12,8 @@ sign_dtype = np.int8
 
 class ManifoldException(Exception):
     pass
+
+
+class OrientationException(ValueError):
+    """Raised when an operation requires a consistent orientation which the topology does not have"""
+    pass
diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 0d4bd98..a1a4b12 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -9,7 +9,7 @@ import scipy.sparse
 from cached_property import cached_property
 
 import pycomplex.sparse
-from pycomplex.topology import ManifoldException, sign_dtype, index_dtype
+from pycomplex.topology import ManifoldException, OrientationException, sign_dtype, index_dtype
 from pycomplex.util import accumulate
 
 
@@ -184,7 +184,7 @@ class BaseTopology(object):
             return self.chain(-1)
         orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist())
         if orientation == 'UNSAT':
-            raise ValueError('Topology is a non-orientable manifold.')
+            raise OrientationException('Topology is a non-orientable manifold.')
 
         # convert to parity description
         from pycomplex.topology.util import orientation_to_parity
diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index b2ad75d..9d2ef94 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -3,7 +3,7 @@ import numpy as np
 import numpy_indexed as npi
 from cached_property import cached_property
 
-from pycomplex.topology import index_dtype, sign_dtype
+from pycomplex.topology import index_dtype, sign_dtype, OrientationException
 from pycomplex.topology.util import topology_matrix, selection_matrix
 from pycomplex.topology.base import BaseTopology
 
@@ -206,7 +206,7 @@ class PrimalTopology(BaseTopology):
             return None
 
         if not self.is_oriented:
-            raise ValueError('Cannot get the boundary of a non-oriented manifold')
+            raise OrientationException('Cannot get the boundary of a non-oriented manifold')
 
         chain_N = self.chain(-1, fill=1)
         chain_n = self.matrix(-1) * chain_N
@@ -245,6 +245,17 @@ class PrimalTopology(BaseTopology):
         components = [self.select_subset(labels == i) for i in range(n_components)]
         return sorted(components, key=lambda c: -c.n_elements[-1])
 
+    def _boundary_idx(self):
+        """Indices of all n-elements on the boundary, for each n for which there are any
+
+        Only an oriented topology has a boundary to speak of
+        """
+        try:
+            boundary = self.boundary
+        except OrientationException:
+            return []
+        return [] if boundary is None else boundary.parent_idx
+
     @cached_property
     def selector_interior(self):
         """Operators to select interior, or to strip boundary elements
@@ -255,12 +266,12 @@ class PrimalTopology(BaseTopology):
             selectors mapping all elements to the interior subset
             last element of this list is identity; all N-elements are part of the interior
         """
+        idx = self._boundary_idx()
+
         def s(i):
             d = self.chain(n=i, fill=1, dtype=sign_dtype)
-            try:
-                d[self.boundary.parent_idx[i]] = 0
-            except:
-                pass
+            if i < len(idx):
+                d[idx[i]] = 0
             return selection_matrix(d)
 
         return [s(i) for i in range(self.n_dim + 1)]
@@ -275,12 +286,12 @@ class PrimalTopology(BaseTopology):
             selectors mapping all elements to the boundary subset
             last element of this list is trivial; no N-elements are part of the boundary
         """
+        idx = self._boundary_idx()
+
         def s(i):
             d = self.chain(n=i, fill=0, dtype=sign_dtype)
-            try:
-                d[self.boundary.parent_idx[i]] = 1
-            except:
-                pass
+            if i < len(idx):
+                d[idx[i]] = 1
             return selection_matrix(d)
 
         return [s(i) for i in range(self.n_dim + 1)]
-- 
2.43.0


From 83994fbcfaa9d2241eebaa2f12403a8a67bc2458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:21 +0000
Subject: [PATCH 04/31] fix: optimize_weights_metric hides a failed conversion
 to a euclidian complex

Any failure of as_euclidian, an interrupt included, silently made a spherical
complex optimize against its own spherical metric. Only euclidian complexes,
which have no such method, should be used as they are.
---
 pycomplex/complex/simplicial/base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index f9b8e12..6d56353 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -136,11 +136,8 @@ class BaseComplexSimplicial(BaseComplex):
         """
         assert self.weights is None # not sure this is required
 
-        try:
-            # for spherical complexes, it suffices to simply view them as euclidian for the present purpose
-            euclidian = self.as_euclidian()
-        except:
-            euclidian = self
+        # for spherical complexes, it suffices to simply view them as euclidian for the present purpose
+        euclidian = self.as_euclidian() if hasattr(self, 'as_euclidian') else self
 
         T = self.topology.matrices[0]
         DnP1 = euclidian.hodge_DP[1]
-- 
2.43.0


From 262dc9880de88f2562651f74251ca8df153f3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:53 +0000
Subject: [PATCH 05/31] fix: block arrays hide failures of their operands

Bare excepts turned any failure while transposing or assigning an operand into
a different operator (np.transpose of the operator, or the next kind of
assignment). Decide on what the operand is, rather than on what fails.
---
 pycomplex/block.py         | 16 +++---------
 pycomplex/stencil/block.py | 53 ++++++++++----------------------------
 2 files changed, 18 insertions(+), 51 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 9f86ba5..630f246 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -84,10 +84,8 @@ class BlockArray(object):
         """Return transpose of self"""
 
         def t(x):
-            try:
-                return x.transpose()
-            except:
-                return np.transpose(x)
+            # anything which cannot transpose itself is array-like
+            return x.transpose() if hasattr(type(x), 'transpose') else np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
         return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
@@ -98,14 +96,8 @@ class BlockArray(object):
         return type(self)(self.block.__getitem__(slc))
 
     def broadcasting_operator(self, other, op):
-        try:
-            A = self.block
-        except:
-            A = self
-        try:
-            B = other.block
-        except:
-            B = other
+        A = self.block
+        B = other.block if hasattr(other, 'block') else other
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 495f767..d79daa9 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -58,23 +58,15 @@ class BlockArray(object):
         """Return transpose of self"""
 
         def t(x):
-            try:
-                return x.T
-            except:
-                return np.transpose(x)
+            # anything which cannot transpose itself is array-like
+            return x.T if hasattr(type(x), 'T') else np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
         return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
 
     def broadcasting_operator(self, other, op):
-        try:
-            A = self.block
-        except:
-            A = self
-        try:
-            B = other.block
-        except:
-            B = other
+        A = self.block
+        B = other.block if hasattr(other, 'block') else other
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
@@ -116,36 +108,19 @@ class BlockArray(object):
         return self.block[item]
 
     def __setitem__(self, key, value):
-        try:
-            if value == 0:
-                from pycomplex.stencil.operator import ZeroOperator
-                self.block[key] = ZeroOperator(shape=self.block[key].shape)
-                return
-        except:
-            pass
-        try:
-            if value == 1:
-                from pycomplex.stencil.operator import IdentityOperator
-                assert self.block[key].shape[0] == self.block[key].shape[1]
-                self.block[key] = IdentityOperator(shape=self.block[key].shape[0])
-                return
-        except:
-            pass
-        try:
-            from pycomplex.stencil.operator import StencilOperator
-            if isinstance(value, StencilOperator):
-                assert self.block[key].shape == value.shape
+        from pycomplex.stencil.operator import StencilOperator, IdentityOperator
+        if isinstance(value, (StencilOperator, np.ndarray)):
+            if self.block[key].shape == value.shape:
                 self.block[key] = value
                 return
-        except:
-            pass
-        try:
-            if isinstance(value, np.ndarray):
-                assert self.block[key].shape == value.shape
-                self.block[key] = value
+        elif value == 0:
+            self.block[key] = ZeroOperator(shape=self.block[key].shape)
+            return
+        elif value == 1:
+            l, r = self.block[key].shape
+            if l == r:
+                self.block[key] = IdentityOperator(shape=l)
                 return
-        except:
-            pass
         raise NotImplementedError
 
     def to_dense(self):
-- 
2.43.0


From f179b41bd5f85527c81b8c1733095ea13c7cb284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 06/31] fix: multigrid_transfers depends on eigenproblems
 solved before

The start vector of the eigenvalue iteration came from state hidden in ARPACK,
so that the transfers of one and the same mesh differed with the history of
the process.
---
 pycomplex/complex/cubical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/cubical.py b/pycomplex/complex/cubical.py
index 6c5ae82..636119e 100755
--- a/pycomplex/complex/cubical.py
+++ b/pycomplex/complex/cubical.py
@@ -156,7 +156,9 @@ class ComplexCubical(BaseComplex):
         def smoother(i):
             L = laplacian(fine, i)
             # seems to converge to 8 for all k for ndim=2
-            l = scipy.sparse.linalg.eigsh((L * 1.0), k=1, which='LM', tol=1e-6, return_eigenvectors=False)[0]
+            # fixed start vector; by default it is drawn from hidden process-wide state
+            v0 = np.random.RandomState(0).uniform(-1, 1, L.shape[0])
+            l = scipy.sparse.linalg.eigsh((L * 1.0), k=1, which='LM', tol=1e-6, v0=v0, return_eigenvectors=False)[0]
             I = scipy.sparse.identity(L.shape[0])
             # construct smoother
             # FIXME: add mass term? not needed for cube; but at boundary?
-- 
2.43.0


From 495a6d503348b34bf7163dbee94af8d9819b22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:15 +0000
Subject: [PATCH 07/31] fix: unpacking of block arrays of more than two blocks

np.split takes positions, not sizes; with three or more blocks from_dense
raised, or cut the array in the wrong places, so that iterative solves of
such systems failed.
---
 pycomplex/stencil/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index d79daa9..3984e6a 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -133,7 +133,7 @@ class BlockArray(object):
         assert sum(splits) == x.size
         return BlockArray([
             s.reshape(b.shape)
-            for s, b in zip(np.split(x, splits[:-1]), self.block)
+            for s, b in zip(np.split(x, np.cumsum(splits)[:-1]), self.block)
         ], self.ndim)
 
 
-- 
2.43.0


From aa0838f85c9c082615d0cf688c2cb488aaa5da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:15 +0000
Subject: [PATCH 08/31] fix: linear operators of non-square block operators

The right operand lives in the column space of the operator, not in the row
space; applying the linear operator of a non-square block operator raised.
---
 pycomplex/stencil/block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 3984e6a..622b5f8 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -276,7 +276,7 @@ class BlockOperator(BlockArray):
         # FIXME: signature of matvec requires that we support both shape (N,) and (N, 1)
         return LinearOperator(
             shape=tuple([sum(np.prod(b.shape) for b in s.block) for s in (L, R)]),
-            matvec=lambda x: self.vector_mul(L.from_dense(x)).to_dense(),
-            rmatvec=lambda x: T.vector_mul(R.from_dense(x)).to_dense(),
+            matvec=lambda x: self.vector_mul(R.from_dense(x)).to_dense(),
+            rmatvec=lambda x: T.vector_mul(L.from_dense(x)).to_dense(),
             dtype=np.float32,
         )
-- 
2.43.0


From bd2d8c7efd533a8811cc6c5a8d872f87466e7d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 09/31] fix: merging a sparse block matrix changes its blocks

scipy.sparse.bmat converts the entries of an object array in place; the blocks
became sparse arrays, for which * means the elementwise product, so that
products of the block matrix failed or changed after a merge.
---
 pycomplex/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 630f246..06557da 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -260,7 +260,7 @@ class SparseBlockMatrix(BlockMatrix):
     def merge(self):
         if self.nested:
             raise NotImplementedError
-        return scipy.sparse.bmat(self.block)
+        return scipy.sparse.bmat(self.block.copy())
 
     @staticmethod
     def diags(diag):
-- 
2.43.0


From ef282e798810c4525155675a6e33d6029e742cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:37 +0000
Subject: [PATCH 10/31] fix: saving and loading STL files hides disk errors

ndarray.tofile does not report errors that surface when its stream is
flushed, so saving to a full disk returned normally with an empty file, and
loading a file that ends early returned a mesh without its last triangles.
---
 pycomplex/complex/simplicial/euclidian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 26f42bf..4b29a17 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -741,9 +741,10 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         data['normal'] = linalg.normalized(self.triangle_normals()) # normal also isnt really used
 
         with open(filename, 'wb') as fh:
-            header.   tofile(fh)
-            triangles.tofile(fh)
-            data.     tofile(fh)
+            # note: ndarray.tofile does not report errors that only surface on flushing, such as a full disk
+            fh.write(header.   tobytes())
+            fh.write(triangles.tobytes())
+            fh.write(data.     tobytes())
 
     @classmethod
     def load_STL(cls, filename):
@@ -764,6 +765,8 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
             header = np.fromfile(fh, '<c', 80)
             triangles = np.fromfile(fh, '<u4', 1)[0]
             data = np.fromfile(fh, dtype, triangles)
+            if len(data) != triangles:
+                raise EOFError('STL file ends after {} of {} triangles'.format(len(data), triangles))
 
         vertices, triangles = npi.unique(data['vertex'].reshape(-1, 3), return_inverse=True)
         return cls(vertices, triangles=triangles.reshape(-1, 3))
-- 
2.43.0


From c3b627a407d666989bfadba6dc3649c91938820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:32 +0000
Subject: [PATCH 11/31] fix: block arrays and operators with equally shaped
 blocks

Blocks of equal shape were merged into one array, after which products,
transposes and unpacking of such block vectors failed.
---
 pycomplex/stencil/block.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 622b5f8..269c7d5 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -6,6 +6,14 @@ from pycomplex.stencil.operator import ZeroOperator
 
 
 
+def object_array(blocks, shape):
+    """Array of the given blocks as opaque objects; also if all blocks are arrays of equal shape"""
+    array = np.empty(len(blocks), object)
+    for i, b in enumerate(blocks):
+        array[i] = b
+    return array.reshape(shape)
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
 
@@ -14,9 +22,7 @@ class BlockArray(object):
             self.block = block
         else:
             if ndim==1:
-                b = np.empty(len(block), object)
-                b[...] = block
-                self.block = b
+                self.block = object_array(block, -1)
             elif ndim == 2:
                 b = np.empty((len(block), len(block[0])), object)
                 for i in range(b.shape[0]):
@@ -52,7 +58,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -62,7 +68,7 @@ class BlockArray(object):
             return x.T if hasattr(type(x), 'T') else np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def broadcasting_operator(self, other, op):
         A = self.block
@@ -70,8 +76,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
-        return type(self)(block)
+        return type(self)(object_array(block, A.shape))
 
     def __add__(self, other):
         """Add two block operators"""
@@ -260,7 +265,7 @@ class BlockOperator(BlockArray):
                 if not isinstance(self.block[i, j], ZeroOperator):
                     output[i] = output[i] + self.block[i, j] * other.block[j]
 
-        return type(other)(output)
+        return type(other)(output, ndim=1)
 
     def __repr__(self):
         return '\n'.join('\t'.join([repr(e) for e in row]) for row in self.block)
-- 
2.43.0


From 1e1f4bd5629d90e428a6e24dfcfd6eda8dd7f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:48 +0000
Subject: [PATCH 12/31] fix: picking with hints on regular complexes

Hints were kept for points beyond the far side of the hinted cube, and
picking fundamental domains with only valid hints raised.
---
 pycomplex/complex/regular.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index bd406a2..fd7da06 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -94,7 +94,7 @@ class ComplexRegularMixin(object):
             cube, baries = query(points)
         else:
             baries = compute_baries(basis[cube], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
                 cube = cube.copy()
                 d, b = query(points[update])
@@ -164,23 +164,22 @@ class ComplexRegularMixin(object):
             return r / basis[:, 1]
 
         def query(points):
-            _, domain = tree.query(points)
-            b = basis[domain]
-            baries = compute_baries(b, points)
-            return domains[domain], baries
+            _, domain_idx = tree.query(points)
+            baries = compute_baries(basis[domain_idx], points)
+            return domain_idx, baries
 
         if domain_idx is None:
-            domain, baries = query(points)
+            domain_idx, baries = query(points)
         else:
             baries = compute_baries(basis[domain_idx], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
-                domain = domains[domain_idx]
+                domain_idx = domain_idx.copy()
                 d, b = query(points[update])
-                domain[update] = d
+                domain_idx[update] = d
                 baries[update] = b
 
-        return domain, baries
+        return domains[domain_idx], baries
 
     def pick_dual(self, points):
         """Pick the dual cubes
-- 
2.43.0


From 31963ca6134c709244cccf96fd7d9f49d6d27fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:48 +0000
Subject: [PATCH 13/31] fix: picking on curved or poorly centered simplicial
 complexes

The simplex whose dual vertex is closest need not contain the point, so that
answers depended on the hint that was passed.
---
 pycomplex/complex/simplicial/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 6d56353..87004da 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -404,6 +404,17 @@ class BaseComplexSimplicial(BaseComplex):
             dist, idx = tree.query(augmented)
             homogeneous = self.homogenize(points)
             baries = np.einsum('tcv,tc->tv', basis[idx], homogeneous)
+            # on curved or poorly centered complexes the closest dual vertex need not belong to the simplex that
+            # contains the point; in that case, look for the containing simplex among the next closest ones
+            miss = np.flatnonzero(np.any(baries < 0, axis=1))
+            if len(miss):
+                _, near = tree.query(augmented[miss], k=range(1, min(len(basis), 32) + 1))
+                b = np.einsum('tkcv,tc->tkv', basis[near], homogeneous[miss])
+                depth = b.min(axis=2)
+                best = depth.argmax(axis=1)
+                row = np.flatnonzero(depth.max(axis=1) > -1e-12)    # leave points outside of the complex be
+                idx[miss[row]] = near[row, best[row]]
+                baries[miss[row]] = b[row, best[row]]
             return idx, baries
 
         if simplex_idx is None:
-- 
2.43.0


From 2af4887b9b068b04ac5d7c054fd15d1126ae17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 14/31] fix: boundary topology inherits the orientation of its
 parent elements

---
 pycomplex/topology/primal.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 9d2ef94..d424fff 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -197,10 +197,6 @@ class PrimalTopology(BaseTopology):
             Boundary topology, with attribute parent_idx referring back to the parent elements
             if the topology is closed, None is returned
         """
-        # FIXME: rather than using from_elements, a direct subset selection would be preferable
-        # shouldnt be too hard; just find chains on all elements, select subsets, and remap vertex indices
-        # FIXME: not sure boundary orientation is even preserved in current implementation
-        # in practice, this appears to be very much the case
         if self.n_dim == 0:
             # points do not have a boundary
             return None
@@ -215,15 +211,23 @@ class PrimalTopology(BaseTopology):
             # topology is closed
             return None
 
-        # construct boundary
-        boundary_elements = self.elements[-2][b_idx]
-
-        # mapping is a list of parent vertex indices, for each boundary vertex
-        mapping, inverse = np.unique(boundary_elements.flatten(), return_inverse=True)
-        boundary_elements = inverse.reshape(boundary_elements.shape).astype(index_dtype)
-
-        boundary = self.boundary_type().from_elements(boundary_elements)
-        boundary.parent_idx = self.find_correspondence(boundary, mapping)
+        # a direct subset selection, rather than construction from elements; like that, all elements of the boundary
+        # have the same orientation as their parent elements, which the dual topology relies upon
+        # idx is a list of parent element indices, for each boundary n-element
+        idx = [b_idx]
+        for b in self._boundary[:-1][::-1]:
+            idx.append(np.unique(b[idx[-1]]))
+        idx = idx[::-1]
+
+        def remap(values, n):
+            return np.searchsorted(idx[n], values).astype(index_dtype)
+
+        boundary = self.boundary_type()(
+            elements=[remap(e[i], 0) for e, i in zip(self.elements, idx)],
+            boundary=[remap(b[i], n) for n, (b, i) in enumerate(zip(self._boundary, idx[1:]))],
+            orientation=[o[i] for o, i in zip(self._orientation, idx[1:])],
+        )
+        boundary.parent_idx = idx
         boundary.parent = self
         return boundary
 
-- 
2.43.0


From 2511906892b30a14a60a15520f6b407e956a66dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:12 +0000
Subject: [PATCH 15/31] fix: orientation of meshes with loose elements after
 other components

---
 pycomplex/topology/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index a1a4b12..a31bfa4 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -186,6 +186,11 @@ class BaseTopology(object):
         if orientation == 'UNSAT':
             raise OrientationException('Topology is a non-orientable manifold.')
 
+        # trailing n-elements without any neighbors do not appear in the clauses, nor in the solution;
+        # their orientation is free to choose, just as that of any other n-element without neighbors
+        loose = range(len(orientation) + 1, self.n_elements[-1] + 1)
+        orientation = orientation + [-i for i in loose]
+
         # convert to parity description
         from pycomplex.topology.util import orientation_to_parity
         return orientation_to_parity(orientation)
-- 
2.43.0


From dc661fd7e7927ba512dfe4786dcc8f9d710786a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:12 +0000
Subject: [PATCH 16/31] fix: degree of elements with more than 127 incident
 elements

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index a31bfa4..8f62af0 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -275,7 +275,7 @@ class BaseTopology(object):
             N-elements for each n-element
         """
         A = self.accumulated_operators_N()
-        N_elements = self.chain(-1, fill=1)
+        N_elements = self.chain(-1, fill=1, dtype=index_dtype)
         # ones_like constructs a summing operator; seek nnz per column
         return [pycomplex.sparse.ones_like(a.T) * N_elements for a in A]
 
-- 
2.43.0


From abb1adf43bcd117861e3675ea83aacc89ba25101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:12 +0000
Subject: [PATCH 17/31] fix: check_chain skips the last pair of topology
 matrices

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 8f62af0..83a24f0 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -204,7 +204,7 @@ class BaseTopology(object):
         """Some basic sanity checks on a topology object
         check that the chain complex satisfies its defining properties
         """
-        for i in range(self.n_dim - 2):
+        for i in range(self.n_dim - 1):
             a, b = self.matrices[i], self.matrices[i+1]
             if not (a * b).nnz == 0:
                 raise ValueError('chain {i} does not match'.format(i=i+1))
-- 
2.43.0


From 0748d0a9fd9f3dc1fa15200caa25469ef3557fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:21 +0000
Subject: [PATCH 18/31] fix: elements and orientation of directly subdivided
 triangles

---
 pycomplex/topology/simplicial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 9296d41..d7e0a77 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -476,7 +476,7 @@ class TopologyTriangular(TopologySimplicial):
         # add middle (zero) tri
         # add middle connectivity; three new edges for each face
         fE21[:,0,:] = np.arange(3*N2, dtype=index_dtype).reshape((N2, 3)) + N1*2
-        fO21[:,0,:] = 1                                  # orientation of middle tri is given by convention
+        fO21[:,0,:] = -1                                 # orientation of middle tri; follows that of the outer tris
 
         # first edge of each outer tri is connected to the middle; copy index, invert sign
         fE21[:,1:,0] =  fE21[:,0,:]
@@ -494,10 +494,10 @@ class TopologyTriangular(TopologySimplicial):
 
         # E20 is implied by E21; but much easier to calc by subdivision too
         sE20 = np.empty((N2, 4, 3), index_dtype)
-        sE20[:,0 , :] = E21[0] + N0  # middle tri; translate parent edge index to edge-vertex
+        sE20[:,0 , :] = E21 + N0  # middle tri; translate parent edge index to edge-vertex
         sE20[:,1:, 0] = E20          # corner tri; inherit from parent
-        sE20[:,1:,+1] = E21p[0] + N0 # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
-        sE20[:,1:,-1] = E21m[0] + N0
+        sE20[:,1:,+1] = E21p + N0 # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
+        sE20[:,1:,-1] = E21m + N0
 
         sE20 = sE20.reshape(-1, 3)
         sE21 = fE21.reshape(-1, 3)
-- 
2.43.0


From 88ad8d1a6075e0863e7380df61fe51b538c9afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:42 +0000
Subject: [PATCH 19/31] fix: clipping with a plane through vertices of the mesh

---
 pycomplex/complex/simplicial/euclidian.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 4b29a17..18c65db 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -390,7 +390,9 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
         TV = self.topology.incidence[2, 0]
         EV = self.topology.incidence[1, 0]
 
-        vert_side = (self.vertices - support).dot(direction) > 0
+        # signed distance of each vertex to the plane; both ends of a cut edge have a different distance by construction
+        distance = (self.vertices - support).dot(direction)
+        vert_side = distance > 0
         edge_cut = vert_side[EV].sum(axis=1) % 2 > 0
         tri_side = vert_side[TV]
         tri_cut = vert_side[TV].sum(axis=1) % 3 > 0  # true if mixed sidedness
@@ -398,9 +400,9 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
 
         # location of inserted vertices, one per cut edge; [E, 2, 3]
         edge_vert = self.vertices[EV]
-        bary_insert = (edge_vert - support).dot(direction)
-        edge_length = (edge_vert[:, 1] - edge_vert[:, 0]).dot(direction)
-        with np.errstate(divide='ignore'):
+        bary_insert = distance[EV]
+        edge_length = bary_insert[:, 1] - bary_insert[:, 0]
+        with np.errstate(divide='ignore', invalid='ignore'):
             bary_insert = np.abs(bary_insert[:, ::-1] / edge_length[:, None])
         v_insert = np.einsum('vec,ve->vc', edge_vert, bary_insert)
         new_vertices = v_insert[edge_cut]
-- 
2.43.0


From 4fccb3b5aed92f281c2141713661a77e7a6a8dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 20/31] fix: dual topology of one-dimensional meshes with a
 boundary

---
 pycomplex/topology/dual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/dual.py b/pycomplex/topology/dual.py
index 2849696..62cb5d2 100755
--- a/pycomplex/topology/dual.py
+++ b/pycomplex/topology/dual.py
@@ -165,7 +165,10 @@ class Dual(BaseTopology):
         B = [pycomplex.sparse.sparse_zeros((0, boundary.n_elements[0]))] + boundary.matrices
         T = self.primal.matrices
         # this term effectively 'glues' the interior and boundary topology together
-        S = self.primal.selector_boundary
+        S = list(self.primal.selector_boundary)
+        # points have no orientation of their own; those at either end of a line are glued with opposite sign
+        side = S[-2] * (self.primal.matrix(-1) * self.primal.chain(-1, fill=1))
+        S[-2] = scipy.sparse.diags(-side, dtype=sign_dtype) * S[-2]
 
         return [scipy.sparse.bmat(
                 [[t,   s.T],
-- 
2.43.0


From cd3fe9febfcac012d9f64400c1df0ce104a3cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:42 +0000
Subject: [PATCH 21/31] fix: refined and extruded meshes keep the weights of
 their parent

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 pycomplex/complex/simplicial/spherical.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 18c65db..3007658 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -802,7 +802,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         solid_points = np.concatenate((self.vertices, other.vertices))
         solid_tris   = np.concatenate((self_tris, other_tris, boundary_tris))
 
-        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None)
+        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None, weights=None)
         assert solid.topology.is_oriented
         return solid
 
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 79df4a9..50906c7 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -234,7 +234,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop()
+            topology=self.topology.subdivide_loop(),
+            weights=None,   # those of self belong to its vertices only
         )
 
     def subdivide_loop_direct(self):
@@ -245,7 +246,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop_direct()
+            topology=self.topology.subdivide_loop_direct(),
+            weights=None,   # those of self belong to its vertices only
         )
 
     def as_euclidian(self):
-- 
2.43.0


From cc8f8a737c6521be22a66b3699f943f441cb347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:42 +0000
Subject: [PATCH 22/31] fix: averaging operators of topologies of six and more
 dimensions

---
 pycomplex/topology/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 83a24f0..a95243a 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -222,7 +222,7 @@ class BaseTopology(object):
         Primal could override this implementation with a more efficient implementation based on elements/corners arrays
 
         """
-        A = list(accumulate([np.abs(m) for m in self.matrices], func=operator.mul))
+        A = list(accumulate([np.abs(m).astype(index_dtype) for m in self.matrices], func=operator.mul))
         return [scipy.sparse.identity(A[0].shape[0], dtype=sign_dtype)] + A
 
     def accumulated_operators_N(self):
@@ -234,7 +234,7 @@ class BaseTopology(object):
             n-th element of the list maps n-elements to N-elements
 
         """
-        A = list(accumulate([np.abs(m.T) for m in self.matrices[::-1]], func=operator.mul))
+        A = list(accumulate([np.abs(m.T).astype(index_dtype) for m in self.matrices[::-1]], func=operator.mul))
         A = [scipy.sparse.identity(A[0].shape[0], dtype=sign_dtype)] + A
         return A[::-1]
 
-- 
2.43.0


From e2c192cd3e87b2bcc3a1d4c581ce421150afdf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:22 +0000
Subject: [PATCH 23/31] fix: circumcenters of simplices that are large or far
 from the origin

---
 pycomplex/geometry/euclidian.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 8fe7caf..af09cb6 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -145,6 +145,14 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
     if weights is not None:
         weights = np.asarray(weights)
 
+    # barycentric coordinates do not depend on the position and size of the simplex; but the eigenvalues below do
+    pts = pts - pts.mean(axis=-2, keepdims=True)
+    size = np.sqrt(np.einsum('...ij,...ij->...i', pts, pts).max(axis=-1))[..., None, None]
+    size = np.where(size > 0, size, 1)
+    pts = pts / size
+    if weights is not None:
+        weights = weights / size[..., 0] ** 2
+
     n_pts, n_dim = pts.shape[-2:]
     gu = pts.shape[:-2]
     N = n_pts + 1
@@ -155,7 +163,7 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
 
     v, w = np.linalg.eigh(A)
     vr = 1 / v
-    vr[np.abs(vr) > np.abs(vr).min() * ratio] = 0
+    vr[np.abs(vr) > np.abs(vr).min(axis=-1, keepdims=True) * ratio] = 0
     pinv = np.einsum('...ij,...j,...kj', w, vr, w)
 
     b = np.ones(gu + (N,))
-- 
2.43.0


From a6d74a7b3245f701c2bccf7bcdabfa0697207881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:57 +0000
Subject: [PATCH 24/31] fix: smoothing of meshes with integer vertex positions

---
 pycomplex/complex/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9e99422..d9e37f8 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -165,7 +165,8 @@ class BaseComplex(object):
                 C[n] = np.flatnonzero(c) if isinstance(c, np.ndarray) else c
 
         # accumulate new vertex positions
-        vertices = self.vertices.copy()
+        # these are averages, also if the positions started out as integers
+        vertices = self.vertices.astype(np.result_type(self.vertices, np.float32))
         # start with n-elements, working backwards to vertices
         for corners, cr, centroids in reversed(list(zip(self.topology.corners, C, self.primal_position))):
             if cr is not None:
-- 
2.43.0


From f686af6a593511231146233be87de819125b056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 25/31] fix: subdivide_loop_operator has the vertices of the
 refined mesh as rows

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 3007658..82757d9 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -319,7 +319,7 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
             sparse array mapping coarse to fine vertices
 
         """
-        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0)
+        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0[:2])
 
         if smooth:
             # NOTE: only difference with cubical case lies in this call
-- 
2.43.0


From 2635cb33d5b3463ce8a3206866b77a6d3cb2c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:07 +0000
Subject: [PATCH 26/31] fix: optimal_delaunay_sphere reports points that are
 missing from the triangulation

---
 pycomplex/synthetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomplex/synthetic.py b/pycomplex/synthetic.py
index 4b3090e..5faff39 100755
--- a/pycomplex/synthetic.py
+++ b/pycomplex/synthetic.py
@@ -261,6 +261,9 @@ def optimal_delaunay_sphere(n_points, n_dim, iterations=50, weights=True, push_i
         points = linalg.normalized(points)
         delaunay = scipy.spatial.ConvexHull(points)
         topology = TopologySimplicial.from_simplices(delaunay.simplices).fix_orientation()
+        if topology.n_elements[0] != n_points:
+            # trailing points that coincide with others are not part of any simplex
+            raise ValueError('Not all points are part of the convex hull')
         complex = ComplexSpherical(vertices=points, topology=topology)
         if weights:
             complex = complex.optimize_weights()
-- 
2.43.0


From 786a20c454111ffe9adff6116cb02eff185f7fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 27/31] fix: System.allocate_x and allocate_y use the forms of
 the topology

---
 pycomplex/stencil/linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index d58f30c..29a1376 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -36,10 +36,10 @@ class System(object):
         self.R = np.array(R)
 
     def allocate_x(self):
-        return BlockArray([self.complex.form(n) for n in self.R])
+        return BlockArray([self.complex.topology.form(n) for n in self.R], ndim=1)
 
     def allocate_y(self):
-        return BlockArray([self.complex.form(n) for n in self.L])
+        return BlockArray([self.complex.topology.form(n) for n in self.L], ndim=1)
 
     @classmethod
     def canonical(cls, complex: StencilComplex):
-- 
2.43.0


From 1d1f1ab5446299d3e0ba3e100d2528e2ad1a216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 28/31] fix: selecting non-contiguous rows of a System selects
 the matching block of B

---
 pycomplex/stencil/linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index 29a1376..4aef477 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -146,7 +146,7 @@ class System(object):
         """Slice a subsystem of full cochain complex"""
         return self.copy(
             A=self.A.__getslice__(item).copy(),
-            B=self.B.__getslice__([item[0], item[0]]).copy(),
+            B=self.B.__getslice__(item[0]).__getslice__((slice(None), item[0])).copy(),
             L=self.L[item[0]],
             R=self.R[item[1]],
         )
-- 
2.43.0


From 480e26e2de7b60d01dc0f4af5de8fd0fe829e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 29/31] fix: NE_BLOCK_GS moves against the residual, not along
 it

---
 pycomplex/stencil/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 65fe21b..d074c7b 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -141,7 +141,7 @@ class NormalSmoothEquation(Equation):
         for ri, l in enumerate(self.system.L):
             residual = sum(a * xc for a, xc in zip(self.system.A[ri, :], x.block)) - by[ri]
             for ci, xc in enumerate(x.block):
-                xc[:] += self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
+                xc[:] -= self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
         return x
 
     def overrelax(self, x: BlockArray, y: BlockArray, knots):
-- 
2.43.0


From e1b00eab7b5b33af6155d48f91281b29a82e15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 30/31] fix: blocks of equal shape are not merged by transfers
 of 1-d diffusion

---
 pycomplex/stencil/diffusion.py | 6 +++---
 pycomplex/stencil/equation.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/stencil/diffusion.py b/pycomplex/stencil/diffusion.py
index 6122572..7b7024b 100644
--- a/pycomplex/stencil/diffusion.py
+++ b/pycomplex/stencil/diffusion.py
@@ -143,12 +143,12 @@ class Diffusion(NormalSmoothEquation, MultiGridEquation):
         return BlockArray([
             self.complex.coarse.hodge[n] * (self.complex.coarsen[n] * (self.complex.hodge[n].I * b))
             for n, b in zip(self.system.L, y.block)
-        ])
+        ], ndim=1)
     def restrict_primal(self, y):
-        return BlockArray([self.complex.coarsen[n] * b for n, b in zip(self.system.L, y.block)])
+        return BlockArray([self.complex.coarsen[n] * b for n, b in zip(self.system.L, y.block)], ndim=1)
 
 
     def restrict(self, y):
         return self.restrict_dual(y)
     def interpolate(self, x):
-        return BlockArray([self.complex.refine[n] * b for n, b in zip(self.system.R, x.block)])
\ No newline at end of file
+        return BlockArray([self.complex.refine[n] * b for n, b in zip(self.system.R, x.block)], ndim=1)
\ No newline at end of file
diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index d074c7b..6a41b06 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -97,7 +97,7 @@ class NormalSmoothEquation(Equation):
     @cached_property
     def inverse_sg_normal_diagonal(self):
         """Inverse diagonal of normal equations formed on a per-block-row-equation basis"""
-        return BlockArray([pr.diagonal()[0] for pr in self.projected_rows]).invert()
+        return BlockArray([pr.diagonal()[0] for pr in self.projected_rows], ndim=1).invert()
 
     @cached_property
     def AT(self):
-- 
2.43.0


From 0c26ccad14108b4613873472cefa539dced18359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 31/31] fix: default initial guess of a solve has the shape of
 the unknowns

---
 pycomplex/stencil/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 6a41b06..5904d17 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -43,7 +43,7 @@ class Equation(object):
     def solve_minres_normal(self, y, x0=None, **kwargs):
         """Works both for zero-conduction and zero-resistance zero-order problems"""
         if x0 is None:
-            x0 = y * 0
+            x0 = self.system.allocate_x()
         return self.normal.solve_minres(y, x0, **kwargs)
 
     def solve_qmr(self, y, x0, **kwargs):
@@ -175,5 +175,5 @@ class NormalSmoothEquation(Equation):
 class NormalEquation(Equation):
     def solve(self, y, x0=None, **kwargs):
         if x0 is None:
-            x0 = y * 0
+            x0 = self.system.allocate_x()
         return self.solve_minres(y=y, x0=x0, **kwargs)
-- 
2.43.0

