From 4f668c22389eb419e39e55f4793d9c76fd2f5677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 01/36] fix: collapse transposes of composite expressions and
 differences with zero numbers

collapse_tr called itself with the collapsed matrix (which has no .A), and
A - 0, 0 - A and sums of numbers sent collapse_add/collapse_sub into
endless recursion.
---
 xii/linalg/collapse_iter.py |  4 ++++
 xii/linalg/convert.py       | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/collapse_iter.py b/xii/linalg/collapse_iter.py
index 176621c..619e709 100644
--- a/xii/linalg/collapse_iter.py
+++ b/xii/linalg/collapse_iter.py
@@ -201,6 +201,10 @@ def collapse_add(A, B):
 
 def collapse_sub(A, B):
     '''A - B to single matrix'''
+    if is_petsc_mat(A) and is_number(B) and abs(B) < 1E-14:
+        return A
+    if is_petsc_mat(B) and is_number(A) and abs(A) < 1E-14:
+        return collapse_mul(-1., B)
     # Base case
     if is_petsc_mat(A) and is_petsc_mat(B):
         A_ = as_petsc(A)
diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 5149ff8..a8732d6 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -145,13 +145,18 @@ def collapse_tr(bmat):
         C_ = PETSc.Mat()
         A_.transpose(C_)
         return PETScMatrix(C_)
+    # Transpose of multiple of identity
+    if is_number(A):
+        return A
     # Recurse
-    return collapse_tr(collapse(bmat))
+    return collapse_tr(block_transpose(collapse(A)))
 
 
 def collapse_add(bmat):
     '''A + B to single matrix'''
     A, B = bmat.A, bmat.B
+    if is_number(A) and is_number(B):
+        return A + B
     if is_petsc_mat(A) and is_number(B) and abs(B) < 1E-14:
         return A
     if is_petsc_mat(B) and is_number(A) and abs(A) < 1E-14:
@@ -166,12 +171,18 @@ def collapse_add(bmat):
         C_.axpy(1., B_, PETSc.Mat.Structure.DIFFERENT)
         return PETScMatrix(C_)
     # Recurse
-    return collapse_add(collapse(A) + collapse(B))
+    return collapse_add(block_add(collapse(A), collapse(B)))
 
 
 def collapse_sub(bmat):
     '''A - B to single matrix'''
     A, B = bmat.A, bmat.B
+    if is_number(A) and is_number(B):
+        return A - B
+    if is_petsc_mat(A) and is_number(B) and abs(B) < 1E-14:
+        return A
+    if is_petsc_mat(B) and is_number(A) and abs(A) < 1E-14:
+        return collapse_mul(block_mul(-1., B))
     # Base case
     if is_petsc_mat(A) and is_petsc_mat(B):
         A_ = as_petsc(A)
@@ -182,7 +193,7 @@ def collapse_sub(bmat):
         C_.axpy(-1., B_, PETSc.Mat.Structure.DIFFERENT)
         return PETScMatrix(C_)
     # Recurse
-    return collapse_sub(collapse(A) - collapse(B))
+    return collapse_sub(block_sub(collapse(A), collapse(B)))
 
 
 def collapse_mul(bmat):
-- 
2.43.0


From 9c999bcb624fc49f8be41f56952205f1cd0c3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 02/36] fix: convert expressions with repeated, numeric or
 summed factors

Factors of a product were recombined with operator.mul, which block_add and
block_sub don't support, two numbers in a product weren't handled, the
iterative conversion confused repeated sub-expressions (and equal results),
get_dims looked only at the first two factors and bmat_sizes of a block_vec
at the class.
---
 xii/linalg/collapse_iter.py | 14 ++++++++++----
 xii/linalg/convert.py       | 21 +++++++--------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/xii/linalg/collapse_iter.py b/xii/linalg/collapse_iter.py
index 619e709..be42ab3 100644
--- a/xii/linalg/collapse_iter.py
+++ b/xii/linalg/collapse_iter.py
@@ -1,6 +1,7 @@
 from collections import defaultdict
 from functools import reduce
-from itertools import chain
+from itertools import chain, count
+from copy import copy
 import operator
 
 import networkx as nx
@@ -73,8 +74,9 @@ def expr2graph(expr):
                 terminal_labels[child].append(child_node)
                 terminal_counter += 1
             else:
-                subexpr.append(child)
-                child_node = child
+                # Expressions can repeat while nodes of the tree must not
+                child_node = copy(child) if child in g else child
+                subexpr.append(child_node)
             # ... index to edge
             g.add_edge(parent, child_node, index=index)
             
@@ -221,6 +223,8 @@ def collapse_sub(A, B):
 def collapse_mul(A, B):
     '''A*B*C to single matrix'''
     # A0 * A1 * ...
+    if is_number(A) and is_number(B):
+        return A*B
     # Two matrices
     if is_petsc_mat(A) and is_petsc_mat(B):
         A_ = as_petsc(A)
@@ -258,6 +262,8 @@ def collapse(expr):
     graph, terminals = expr2graph(expr)
     # Here terminals is terminal -> it's name; we need to flip it
     terminals = {val: key for (key, values) in terminals.items() for val in values}
+    # Results get unique names as the same matrix can be the result many times
+    counter = count()
     # Starting from leave we want to change the expression to simple tree
     done = False
     while not done:
@@ -265,7 +271,7 @@ def collapse(expr):
             # FIXME: this is a mock up
             # terminal = collapse_tree(sub_expr)
             mat = collapse_tree(tree, terminals)
-            node = str(mat)
+            node = f'C_{next(counter)}'
             # In graph we put name ...
             graph, done = replace_tree(graph, tree, node)
             # ... and we have a lookup
diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index a8732d6..1888a5e 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -12,7 +12,6 @@ from scipy.sparse import csr_matrix, vstack as sp_vstack
 from petsc4py import PETSc
 import numpy as np
 import itertools
-import operator
 from functools import reduce
 
 COMM = PETSc.COMM_WORLD
@@ -229,7 +228,7 @@ def collapse_mul(bmat):
             return collapse(collapse(A)*collapse(B))
     # Recurse
     else:
-        return collapse_mul(collapse(A)*collapse(reduce(operator.mul, B)))                                    
+        return collapse(collapse(A)*collapse(reduce(block_mul, B)))
 
     
 # Conversion via numpy
@@ -319,23 +318,17 @@ def get_dims(thing):
     if isinstance(thing, block_mul):
         A, B = thing.chain[0], thing.chain[1:]
 
-        dims_A, dims_B = get_dims(A), get_dims(B[0])
+        dims_A = get_dims(A)
+        dims_B = get_dims(B[0] if len(B) == 1 else reduce(block_mul, B))
         # A number does not change
         if dims_A is None:
             return dims_B
         if dims_B is None:
             return dims_A
         # Otherwise, consistency
-        if len(B) == 1:
-            assert len(dims_A) == len(dims_B) 
-            assert dims_A[1] == dims_B[0], (dims_A, dims_B) 
-            return (dims_A[0], dims_B[1])
-        else:
-            dims_B = get_dims(reduce(operator.mul, B))
-            
-            assert len(dims_A) == len(dims_B) 
-            assert dims_A[1] == dims_B[0], (dims_A, dims_B)
-            return (dims_A[0], dims_B[1])
+        assert len(dims_A) == len(dims_B)
+        assert dims_A[1] == dims_B[0], (dims_A, dims_B)
+        return (dims_A[0], dims_B[1])
     # +, -
     if isinstance(thing, (block_add, block_sub)):
         A, B = thing.A, thing.B
@@ -370,7 +363,7 @@ def get_dims(thing):
 def bmat_sizes(bmat):
     '''Return a tuple which represents sizes of (blocks of) bmat'''
     if isinstance(bmat, block_vec):
-        return tuple(map(get_dims, block_vec.blocks))
+        return tuple(map(get_dims, bmat.blocks))
 
     if isinstance(bmat, block_mat):
         vec = bmat.create_vec(0)
-- 
2.43.0


From bc8cd5195c06db87bfcb9cac12088b79ace74baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 03/36] fix: convert block matrices to nest, by rows and back

nest dropped multiples of identity on the diagonal, as_block didn't accept
PETScMatrix (what ii_convert returns) and block_mat_to_petsc used an
undefined name.
---
 xii/linalg/bc_apply.py | 2 +-
 xii/linalg/convert.py  | 6 +++---
 xii/linalg/nest.py     | 6 ++++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/xii/linalg/bc_apply.py b/xii/linalg/bc_apply.py
index ed85140..f041423 100644
--- a/xii/linalg/bc_apply.py
+++ b/xii/linalg/bc_apply.py
@@ -173,7 +173,7 @@ def as_block(monolithic, blocks):
     if isinstance(monolithic, (GenericVector, Vector)):
         return as_block(as_backend_type(monolithic).vec(), blocks)
 
-    if isinstance(monolithic, (Matrix, )):
+    if isinstance(monolithic, (Matrix, PETScMatrix)):
         return as_block(as_backend_type(monolithic).mat(), blocks)
 
     if isinstance(monolithic, PETSc.Vec):
diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 1888a5e..83c0c21 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -279,9 +279,9 @@ def block_mat_to_petsc(bmat):
         for i in range(matrix.size(0)):
             yield matrix.getrow(i)
 
-    row_sizes, col_sizes = get_sizes(bmat)
-    row_offsets = np.cumsum([0] + list(row_sizes))
-    col_offsets = np.cumsum([0] + list(col_sizes))
+    row_sizes, col_sizes = bmat_sizes(bmat)
+    row_offsets = np.cumsum([0] + list(row_sizes)).tolist()
+    col_offsets = np.cumsum([0] + list(col_sizes)).tolist()
 
     with petsc_serial_matrix(row_offsets[-1], col_offsets[-1]) as mat:
         row = 0
diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index dfdd1b9..f1c6138 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -3,7 +3,7 @@ petsc4py.init(sys.argv)
 from petsc4py import PETSc
 
 from xii.linalg.matrix_utils import as_petsc, diagonal_matrix
-from xii.linalg.convert import convert
+from xii.linalg.convert import convert, bmat_sizes
 from block.algebraic.petsc import LU, SUPERLU_LU, AMG, Elasticity
 from block.algebraic.petsc.precond import precond
 from block import block_mat, block_vec, block_mul, block_add
@@ -143,8 +143,10 @@ def nest(tensor, elim_zeros_tol=1E-15, W=None):
             for j in range(ncols):
 
                 if isinstance(tensor[i][j], (int, float)):
-                    # assert i != j, (i, j, tensor[i][j])
                     block = None
+                    # Nonzero number on the diagonal is a multiple of identity
+                    if i == j and tensor[i][j] != 0:
+                        block = as_petsc(diagonal_matrix(bmat_sizes(tensor)[0][i], tensor[i][j]))
                 else:
                     # Optimize for zeros and insert None                       
                     block = as_petsc(convert(tensor[i][j]))
-- 
2.43.0


From 3e3c38737d7d47d94065e9f19244719e1115edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 04/36] fix: updater and wrapped results of apply_bc

The rhs updater ignored conditions given as dictionaries and diag_val, was
missing for a single matrix and for symmetric=False and lost repeated dofs;
a bare dictionary per block wasn't handled and an empty list of conditions
returned the wrapped matrix.
---
 xii/linalg/bc_apply.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/xii/linalg/bc_apply.py b/xii/linalg/bc_apply.py
index f041423..9558974 100644
--- a/xii/linalg/bc_apply.py
+++ b/xii/linalg/bc_apply.py
@@ -17,7 +17,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     '''
     # Specs of do nothing
     if bcs is None or not bcs or (isinstance(bcs, list) and not any(bc for bc in bcs)):
-        return A, b
+        return (A, b, lambda bb: bb) if return_apply_b else (A, b)
     
     # Allow for A, b be simple matrices. To proceed we wrap them as
     # block objects
@@ -47,13 +47,16 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     bcs_ = []
     for bc in bcs:
         assert isinstance(bc, (DirichletBC, list, dict)), (type(bc), )
-        if isinstance(bc, DirichletBC):
+        if isinstance(bc, DirichletBC) or (isinstance(bc, dict) and bc):
             bcs_.append([bc])
         else:
             bcs_.append(bc)
     bcs = bcs_
 
-    if not bcs or not any(bcs): return A, b
+    if not bcs or not any(bcs):
+        if has_wrapped_A:
+            A, b = A[0][0], b[0]
+        return (A, b, lambda bb: bb) if return_apply_b else (A, b)
 
     # Obtain a monolithic matrix
     AA, bb = list(map(convert, (A, b)))
@@ -97,7 +100,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
         blocks.append(PETSc.IS().createStride(last-first, first, 1))
 
         
-    if return_apply_b and symmetric:
+    if return_apply_b:
         # We don't want to reassemble system and apply bcs (when they are 
         # updated) to the (new) matrix and the rhs. Matrix is expensive 
         # AND the change of bcs only effects the rhs. So what we build
@@ -105,9 +108,12 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
         # if by assemble_system (i.e. in a symmetric way)
         def apply_b(bb, AA=AA.copy(), dofs=rows, bcs=bcs, blocks=blocks):
             # Pick up the updated values
-            values = np.array(sum((list(bc.get_boundary_values().values()) if isinstance(bc, DirichletBC) else []
+            values = np.array(sum((list((bc.get_boundary_values() if isinstance(bc, DirichletBC) else bc).values())
                                    for bcs_sub in bcs for bc in bcs_sub),
                                   []))
+            # We cond't get view here ...
+            b = convert(block_vec([bb]) if has_wrapped_A else bb)
+            b_vec = as_backend_type(b).vec()
             # Taken from cbc.block
             c, Ac = AA.createVecs()
 
@@ -115,16 +121,17 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
             c.setValues(dofs, values)  # Forward
             c.assemble()
 
-            AA.mult(c, Ac)  # Note: we work with the deep copy of A
-            
-            b = convert(bb)  # We cond't get view here ...
-            b_vec = as_backend_type(b).vec()
-            b_vec.axpy(-1, Ac)  # Elliminate
-            b_vec.setValues(dofs, values)
+            if symmetric:
+                AA.mult(c, Ac)  # Note: we work with the deep copy of A
+                b_vec.axpy(-1, Ac)  # Elliminate
+
+            # Values as they are in c for dofs that appear repeatedly
+            b_vec.setValues(dofs, diag_val*c.getValues(dofs))
             b_vec.assemble()
 
+            b = as_block(b, blocks)
             bb *= 0  # ... so copy
-            bb += as_block(b, blocks)
+            bb += b[0] if has_wrapped_A else b
                 
             return bb
 
@@ -137,7 +144,8 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     b = as_block(bb, blocks)
     A = as_block(AA, blocks)
     
-    if has_wrapped_A: return A[0][0], b[0]
+    if has_wrapped_A:
+        A, b = A[0][0], b[0]
 
     if return_apply_b:
         return A, b, apply_b
-- 
2.43.0


From bab9d1a153956cfa0b88aeb3bf7a25e0a5d08036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 05/36] fix: vectorised, reduction and regrouping operators,
 block function updates

VectorizedOperator over a list used an undefined name, offsets had to be a
list, transposed rearrangement returned views of vectors that may be gone,
and ii_Function.interpolate replaced the vectors of its components so that
nested vectors obtained before went stale.
---
 xii/linalg/block_utils.py | 13 ++++++++-----
 xii/linalg/function.py    |  5 ++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 853d7ff..d7d8bfd 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -197,7 +197,7 @@ class VectorizedOperator(block_base):
             size,  = set(Wi.dim() for Wi in W)
 
             # Matches A
-            n, n = get_dims(bmat)
+            n, m = get_dims(bmat)
             assert n == m == size
 
             A = block_diag_mat([bmat]*len(W))
@@ -326,7 +326,7 @@ class RearangeOperator(block_base):
     def matvec(self, b):
         '''Reduce'''
         # Breaking up one monolithic petsc vector instead of blockvec
-        if isinstance(b, PETScVector) and b.size() == self.__sizes__[0]:
+        if isinstance(b, (PETScVector, Vector)) and b.size() == self.__sizes__[0]:
             b_ = as_backend_type(b).vec()
             b_blocks = []
             for index_set in self.petsc_index_sets:
@@ -359,7 +359,8 @@ class RearangeOperator(block_base):
                 unpacked[blocks[0]] = bi
             else:
                 x_petsc = as_backend_type(bi).vec()
-                subvecs = [PETScVector(x_petsc.getSubVector(dofs)) for dofs in block_dofs]
+                # NOTE: subvector can be a view into bi which might not outlive us
+                subvecs = [PETScVector(x_petsc.getSubVector(dofs).copy()) for dofs in block_dofs]
                 for j, subvec in zip(blocks, subvecs):
                     unpacked[j] = subvec
         ans = block_vec(unpacked)
@@ -378,7 +379,7 @@ class ReductionOperator(RearangeOperator):
         assert len(W) == offsets[-1]
         assert is_increasing(offsets)
         
-        offsets = [0] + offsets
+        offsets = [0] + list(offsets)
         mapping = tuple(tuple(range(f, l)) for f, l in zip(offsets[:-1], offsets[1:]))
         RearangeOperator.__init__(self, mapping, W)
         self.offsets = offsets
@@ -388,7 +389,7 @@ class RegroupOperator(block_base):
     def __init__(self, offsets, W):
         assert len(W) == offsets[-1]
         assert is_increasing(offsets)
-        self.offsets = [0] + offsets
+        self.offsets = [0] + list(offsets)
 
     def matvec(self, b):
         '''Reduce'''
@@ -404,6 +405,8 @@ class RegroupOperator(block_base):
     def transpmult(self, b):
         '''Unpack'''
         b_block = []
+        if isinstance(b, (Vector, GenericVector)):
+            b = [b]
         for bi in b:
             if isinstance(bi, (Vector, GenericVector)):
                 b_block.append(bi)
diff --git a/xii/linalg/function.py b/xii/linalg/function.py
index 34474d3..ff6c6c6 100644
--- a/xii/linalg/function.py
+++ b/xii/linalg/function.py
@@ -81,7 +81,10 @@ class ii_Function(object):
         Interpolate other ii_Function/ntuple of interpolable things into self.
         '''
         assert len(self) == len(g)
-        [fi.assign(df.interpolate(gi, fi.function_space())) for (fi, gi) in zip(self, g)]
+        # NOTE: assign would give the function a new vector
+        for fi, gi in zip(self, g):
+            fi.vector().set_local(df.interpolate(gi, fi.function_space()).vector().get_local())
+            fi.vector().apply('insert')
 
         return self
 
-- 
2.43.0


From a226d6c178c4e933af7fdf193aed662bdfd9244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 06/36] fix: size the input of the scipy operator by its
 columns

---
 xii/linalg/krylov_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/linalg/krylov_api.py b/xii/linalg/krylov_api.py
index 35e2f68..96df575 100644
--- a/xii/linalg/krylov_api.py
+++ b/xii/linalg/krylov_api.py
@@ -16,7 +16,7 @@ class ScipyLinOp(sp.LinearOperator):
         col_sizes = [v.local_size() for v in bmat.create_vec(1)]
 
         self.shape = (sum(row_sizes), sum(col_sizes))
-        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in row_sizes])
+        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in col_sizes])
             
     def _matvec(self, xarr):
         # Fill
-- 
2.43.0


From 1cdba9af9fc9698bcd631d85f0d1d62934bf68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 07/36] fix: vertices of computed embedding, embedding of a
 single cell

---
 xii/meshing/embedded_mesh.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 23b4dd0..bf682ce 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -180,8 +180,11 @@ class EmbeddedMesh(df.Mesh):
                 assert dist < tol
 
                 entity_mapping[the_cell] = entity
+                # Vertices of the cell coincide with vertices of the entity
+                for v in c2v(the_cell):
+                    dist = np.linalg.norm(entity_x - x[v], 2, axis=1)
+                    vertex_mapping[v] = entity_vertices[np.argmin(dist)]
 
-                # FIXME: do we need vertex embedding here?
         self.parent_entity_map[parent_mesh.id()] = {0: vertex_mapping, tdim: entity_mapping}
 
         if not any(pmesh.id() == parent_mesh.id() for pmesh in self.parent_meshes):
@@ -374,10 +377,8 @@ def InnerNormal(mesh, orientation):
 def is_1_sequence(iterable):
     '''value mathces the index (-offset)'''
     steps = np.unique(np.diff(np.sort(np.fromiter(iterable, dtype='uintp'))))
-    if not len(steps) == 1:
-        return False
-
-    return steps[0] == 1
+    # NOTE: sequence with a single item has no steps
+    return all(steps == 1)
 
 
 def build_embedding_map(emesh, mesh, esubdomains=None, tags=None, tol=1E-14):
@@ -401,7 +402,7 @@ def build_embedding_map(emesh, mesh, esubdomains=None, tags=None, tol=1E-14):
     # Meaning all the emesh cells and vertices need to be found
     all_check = tags is None
     # All the cells
-    if all_check: tags = set((0, ))
+    if all_check: tags = set(esubdomains.array())
 
     # We might be lucky and this is a boundary mesh -> extract
     if hasattr(emesh, 'entity_map'):
-- 
2.43.0


From 7402a634e82ef6960ce83d56ffb86ff60d286981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 08/36] fix: complete the entity map with the tags it misses

---
 xii/assembler/trace_matrix.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index c659b10..a5464b2 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -516,6 +516,9 @@ def get_entity_map(mesh, trace_mesh, subdomains=None, tags=None):
     TV to facets of V
     '''
     mesh_id = mesh.id()
+    # Without subdomains all the cells are needed
+    if subdomains is None:
+        subdomains = MeshFunction('size_t', trace_mesh, trace_mesh.topology().dim(), 0)
     tags = set((0, )) if tags is None else set(tags)
 
     # There is map but we might be missing entry for the mesh
@@ -527,22 +530,19 @@ def get_entity_map(mesh, trace_mesh, subdomains=None, tags=None):
             parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
             trace_mesh.parent_entity_map[mesh_id] = parent_entity_map
         else:
-            needed_tags = trace_mesh.tagged_cells - tags
-            compute = True
+            # Tags with cells which are not mapped yet
+            mapped_trace_entities = set(trace_mesh.parent_entity_map[mesh_id][subdomains.dim()].keys())
+            needed_tags = set(tag for tag in tags
+                              if not set(subdomains.where_equal(tag)) <= mapped_trace_entities)
+
             if needed_tags:
-                tagged_trace_entities = set(np.hstack([subdomains.where_equal(tag) for tag in needed_tags]))
-                mapped_trace_entities = set(trace_mesh.parent_entity_map[mesh_id][subdomains.dim()].keys())
-                compute = tagged_trace_entities <= mapped_trace_entities
-                
-            if compute:
                 info('\tMissing map for tags %r of mesh %d' % (needed_tags, mesh_id))
-                parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
+                parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, needed_tags)
                 # Add new
-                for edim in trace_mesh.parent_entity_map[mesh_id]:
-                    trace_mesh.parent_entity_map[mesh_id][edim].update(parent_entity_map[edim])
+                for edim in parent_entity_map:
+                    trace_mesh.parent_entity_map[mesh_id].setdefault(edim, {}).update(parent_entity_map[edim])
     # Compute from scratch and rememeber for future
     else:
-        print('Here')
         info('\tComputing embedding map for mesh %d' % mesh_id)
 
         parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
-- 
2.43.0


From 1838f395fd478bb4e399e1c0a7f2a6262f63eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 09/36] fix: maps of overlap mesh are dictionaries as elsewhere

---
 xii/meshing/subdomain_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/subdomain_mesh.py b/xii/meshing/subdomain_mesh.py
index 2a690a8..a05cbc4 100644
--- a/xii/meshing/subdomain_mesh.py
+++ b/xii/meshing/subdomain_mesh.py
@@ -88,7 +88,8 @@ def OverlapMesh(mesh1, mesh2, tol=1E-14):
     assert not any(v is None for v in entity_map[0])
     assert not any(v is None for v in entity_map[tdim])
     # At this point we can build add the map
-    emesh.parent_entity_map[mesh2.id()] = entity_map
+    emesh.parent_entity_map[mesh2.id()] = {dim: dict(enumerate(values))
+                                           for dim, values in entity_map.items()}
 
     return emesh
 
-- 
2.43.0


From aa2929b29b024bd01e1ae299b4c55e3845867ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 10/36] fix: arguments of the transposed trace

---
 xii/assembler/transpose_trace_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/transpose_trace_matrix.py b/xii/assembler/transpose_trace_matrix.py
index 77ffaa6..49f9f6c 100644
--- a/xii/assembler/transpose_trace_matrix.py
+++ b/xii/assembler/transpose_trace_matrix.py
@@ -21,6 +21,7 @@ def memoize_trace(trace_mat):
 @memoize_trace
 def transpose_trace_mat(V, TV, reduced_mesh, tag_data):
     '''TODO'''
-    E = trace_mat_no_restrict(V, TV, trace_mesh=reduced_mesh)
+    # V lives on the trace mesh and is extended to TV on the full mesh
+    E = trace_mat_no_restrict(TV, V, trace_mesh=reduced_mesh)
     T = E.transpose()
     return df.PETScMatrix(T)
-- 
2.43.0


From 81e097bf934b4739856d26367c85ffcafa26fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 11/36] fix: average and jump restrictions of the trace

---
 xii/assembler/trace_matrix.py | 141 +++++++++++++++++-----------------
 1 file changed, 70 insertions(+), 71 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index a5464b2..0353ba8 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -252,7 +252,7 @@ def DLT_trace_mat(V, TV, trace_mesh=None, tag_data=None):
 def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data=None):
     '''
     Compute the trace values using +/- restriction. A + plus is the one 
-    for which the vector cell.midpoint - facet.midpoint agrees in orientation
+    for which the vector facet.midpoint - cell.midpoint agrees in orientation
     with the normal on the facet.
     '''
     assert normal.function_space().ufl_element().family() == 'Discontinuous Lagrange'
@@ -412,19 +412,34 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
                                  csr=(mat.indptr, mat.indices, mat.data))
 
 
-def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
+def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data=None):
     '''
     Compute the trace values using avg/jump restriction. A + plus is the one 
-    for which the vector cell.midpoint - facet.midpoint agrees in orientation
-    with the normal on the facet.
+    for which the vector facet.midpoint - cell.midpoint agrees in orientation
+    with the normal on the facet. The jump is plus - minus.
     '''
+    assert normal.function_space().ufl_element().family() == 'Discontinuous Lagrange'
+    assert normal.function_space().ufl_element().degree() == 0
+
     mesh = V.mesh()
-    fdim = mesh.topology().dim() - 1
     
     if trace_mesh is None: trace_mesh = TV.mesh()
 
+    fdim = trace_mesh.topology().dim()
+    gdim = trace_mesh.geometry().dim()
+
+    # None means all
+    if tag_data is None:
+        try:
+            marking_function = trace_mesh.marking_function
+            tag_data = (marking_function, set(marking_function.array()))
+        except AttributeError:
+            tag_data = (MeshFunction('size_t', trace_mesh, trace_mesh.topology().dim(), 0),
+                        set((0, )))
+
+    trace_mesh_subdomains, tags = tag_data
     # Init/extract entity map
-    assert get_entity_map(mesh, trace_mesh)
+    assert get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)
     # We can get it
     mapping = trace_mesh.parent_entity_map[mesh.id()][fdim]  # Map cell of TV to cells of V
 
@@ -439,75 +454,59 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
     dmap = V.dofmap()
     V_basis_f = FEBasisFunction(V)
 
+    # Only look at tagged cells
+    trace_cells = list(itertools.chain(*[map(operator.methodcaller('index'),
+                                                   SubsetIterator(trace_mesh_subdomains, tag))
+                                    for tag in tags]))
+
     # We define avg as sum(+, -)/2 and jump as sum(+, neg(-))
-    operator_pieces = {'avg': (lambda x: x/2, lambda x: x/2),
-                       'jump': (lambda x: x, lambda x: -x)}[restriction]
+    weights = {'avg': (0.5, 0.5), 'jump': (1., -1.)}[restriction]
+    
+    normal_values = normal.vector().get_local().reshape((-1, gdim))
 
-    gdim = mesh.geometry().dim()
-    # Rows
-    visited_dofs = [False]*TV.dim()
-    # Column values
-    dof_values = np.zeros(V_basis_f.elm.space_dimension(), dtype='double')
-    with petsc_serial_matrix(TV, V) as mat:
+    needs_fill = np.ones(TV.dim(), dtype=bool)
+    rows, cols, values = [], [], []
+    for trace_cell in trace_cells:
+        TV_dof.cell = trace_cell
+        trace_dofs = Tdmap.cell_dofs(trace_cell)
+        # Don't add duplicates
+        unseen = needs_fill[trace_dofs]
+        # For the future
+        needs_fill[trace_dofs[unseen]] = False
+
+        # Figure out the dofs of V to use here
+        facet_cells = list(f2c(mapping[trace_cell]))
+        assert 0 < len(facet_cells) < 3
+        # On the boundary facets there is only one value
+        if len(facet_cells) == 1:
+            facet_weights = (1., )
+        else:
+            # Order such that '+' is first
+            t_mp = Cell(trace_mesh, trace_cell).midpoint().array()[:gdim]
+            mp = Cell(mesh, facet_cells[0]).midpoint().array()[:gdim]
+            # Need to flip
+            if not np.inner(t_mp - mp, normal_values[trace_cell]) > 0:
+                facet_cells = facet_cells[::-1]
+            facet_weights = weights
+
+        # Contributions to the rows from the cells get summed
+        for weight, cell in zip(facet_weights, facet_cells):
+            V_basis_f.cell = cell
+            for local, dof in enumerate(dmap.cell_dofs(cell)):
+                # Set which basis foo
+                V_basis_f.dof = local
+                # Get all rows at once
+                dof_values = weight*np.asarray(TV_dof.eval_dofs(V_basis_f))
+                
+                rows.extend(trace_dofs[unseen])
+                cols.extend([dof]*sum(unseen))
+                values.extend(dof_values[unseen])
 
-        for trace_cell in range(trace_mesh.num_cells()):
-            TV_dof.cell = trace_cell
-            trace_dofs = Tdmap.cell_dofs(trace_cell)
+    mat = csr_matrix((values, (rows, cols)), shape=(TV.dim(), V.dim()))
 
-            # Figure out the dofs of V to use here
-            facet_cells = f2c(mapping[trace_cell])
-
-            assert 0 < len(facet_cells) < 3
-            # Ignore boundary facets
-            if len(facet_cells) == 1:
-                facet_cells = [facet_cells[0]]
-                modifiers = (lambda x: x, )  # Do nothing
-            # Search which cell has the right sign
-            else:
-                signs = [None, None]
-                # Order such that '+' is first
-                t_mp = Cell(trace_mesh, trace_cell).midpoint().array()[:gdim]
-                mp = Cell(mesh, facet_cells[0]).midpoint().array()[:gdim]
-
-                sign = '+' if np.inner(mp - t_mp, normal(t_mp)) > 0 else '-'
-                # Need to flip
-                if sign == '-':
-                    facet_cells = facet_cells[::-1]
-                # As requested
-                modifiers = operator_pieces
-
-            for local_T, dof_T in enumerate(trace_dofs):
-
-                if visited_dofs[dof_T]:
-                    continue
-                else:
-                    visited_dofs[dof_T] = True
-                    
-                # Define trace dof
-                TV_dof.dof = local_T
-                
-                # Two sweeps to set the values in the row
-                ADD_VALUES = False
-                for modify, cell in zip(modifiers, facet_cells):
-                    V_basis_f.cell = cell
-                    dofs = dmap.cell_dofs(cell)
-
-                    # Eval at V basis functions
-                    for local, dof in enumerate(dofs):
-                        # Set which basis foo
-                        V_basis_f.dof = local
-                        dof_values[local] = modify(TV_dof.eval(V_basis_f))
-                    # Can fill the matrix now
-                    col_indices = np.array(dofs, dtype='int32')
-
-                    if not ADD_VALUES:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.INSERT_VALUES)
-                        ADD_VALUES = True
-                        #print 'setting', dof_T, col_indices, dof_values
-                    else:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.ADD_VALUES)
-                        #print 'adding', dof_T, col_indices, dof_values
-    return mat
+    return PETSc.Mat().createAIJ(comm=PETSc.COMM_WORLD,
+                                 size=mat.shape,
+                                 csr=(mat.indptr, mat.indices, mat.data))
 
 
 def get_entity_map(mesh, trace_mesh, subdomains=None, tags=None):
-- 
2.43.0


From 9baad71bb14e2c6df34d5396dc0a83f54a6b03fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 12/36] fix: reach the non-conforming trace, on the tagged
 cells

---
 xii/assembler/nonconforming_trace_matrix.py | 13 ++++++++++---
 xii/assembler/trace_matrix.py               |  5 ++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/xii/assembler/nonconforming_trace_matrix.py b/xii/assembler/nonconforming_trace_matrix.py
index e105a53..042df2f 100644
--- a/xii/assembler/nonconforming_trace_matrix.py
+++ b/xii/assembler/nonconforming_trace_matrix.py
@@ -11,10 +11,10 @@ import numpy as np
 import block
 
 
-def nonconforming_trace_mat(V, T):
+def nonconforming_trace_mat(V, T, tag_data=None):
     '''
     Matrix taking function f from d dim space V to g in (d-1) space T. 
-    T(f) ~ g should hold.
+    T(f) ~ g should hold (on cells of T mesh with tags).
     '''
     # For this to work I only make sure that function values are the same
     assert V.ufl_element().value_shape() == T.ufl_element().value_shape()
@@ -56,11 +56,18 @@ def nonconforming_trace_mat(V, T):
     X_T = T.tabulate_dof_coordinates().reshape((T.dim(), -1))
     X_V = V.tabulate_dof_coordinates().reshape((V.dim(), -1))
     
+    # Only look at tagged cells
+    if tag_data is None:
+        Tcells = range(T.mesh().num_cells())
+    else:
+        subdomains, tags = tag_data
+        Tcells, = np.where(np.isin(subdomains.array(), list(tags)))
+
     visited_dofs = np.zeros(T.dim(), dtype=bool)
     col_values = np.zeros(V_basis_function.elm.space_dimension(), dtype='double')
     with petsc_serial_matrix(T, V) as mat:
 
-        for Tcell in range(T.mesh().num_cells()):
+        for Tcell in map(int, Tcells):
             # Set for this cell
             T_degree_of_freedom.cell = Tcell
             
diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index 0353ba8..a6749c6 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -89,13 +89,12 @@ def trace_mat_no_restrict(V, TV, trace_mesh=None, tag_data=None):
 
     trace_mesh_subdomains, tags = tag_data
     # Init/extract the mapping
-    get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)    
     try:
         assert get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)
     except (AssertionError, IndexError):
         warning('Using non-conforming trace')
         # So non-conforming matrix returns PETSc.Mat
-        return nonconforming_trace_mat(V, TV)
+        return nonconforming_trace_mat(V, TV, tag_data)
 
     if V.ufl_element().family() == 'HDiv Trace':
         assert V.ufl_element().degree() == 0
@@ -281,7 +280,7 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
     except (AssertionError, IndexError):
         warning('Using non-conforming trace')
         # So non-conforming matrix returns PETSc.Mat
-        return nonconforming_trace_mat(V, TV)
+        return nonconforming_trace_mat(V, TV, tag_data)
 
     if V.ufl_element().family() == 'HDiv Trace':
         assert V.ufl_element().degree() == 0
-- 
2.43.0


From c68641dc31c0dd2dd479589184ef5a9c57fe0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 13/36] fix: disk quadrature of degree 11 and above 19

---
 xii/assembler/disk_quadrature.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/xii/assembler/disk_quadrature.py b/xii/assembler/disk_quadrature.py
index 537c813..8b42750 100644
--- a/xii/assembler/disk_quadrature.py
+++ b/xii/assembler/disk_quadrature.py
@@ -12,7 +12,10 @@ def disk_quadrature(degree):
         print(f'REQUESTED EVEN DEGREE {degree-1}. ADJUSTING TO ODD {degree}')                
     if degree > 19:
         print('EXCEEDING MAXIMUM SUPPORTED DEGREE. FALLING BACK TO 19')
-        degree == 19
+        degree = 19
+
+    # The tabulated rule of degree 11 only integrates constants, use next one
+    if degree == 11: degree = 13
 
     # Templates for weight
     if degree == 1:
@@ -31,13 +34,6 @@ def disk_quadrature(degree):
                 (0.327176874928167, 0.415187657878755, 0.000000000000000, 2),
                 (0.005591341512851, 0.834794942216211, 0.834794942216211, 3),
                 (0.190570560169519, 0.740334457173511, 0.379016937530835, 4)]
-    elif degree == 11:
-        data = [(-0.103220620849181, 0.000000000000000, 0.000000000000000, 1),
-                (0.000561120485457, 10.081713912649978, 10.081713912649978, 3),
-                (0.234185472691706, 0.329855087221954, 0.329855087221954, 3),
-                (0.123731369524117, 0.163309595229403, 0.163309595229403, 3),
-                (0.194337435615691, 0.582963679648472, 0.582963679648472, 3),
-                (0.129193960146342, 0.862551409331466, 0.191706749096887, 4)]
     elif degree == 13:
         data = [(0.156239869837333, 0.283402832348825, 0.000000000000000, 2),
                 (0.069447409266977, 0.920575474036251, 0.000000000000000, 2),
-- 
2.43.0


From 8c4634005a5acb4cc657c95051ef933ef40c3525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:55 +0000
Subject: [PATCH 14/36] fix: corner of the square rim given as a tuple

---
 xii/assembler/average_shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/average_shape.py b/xii/assembler/average_shape.py
index 764ae8c..3962f31 100644
--- a/xii/assembler/average_shape.py
+++ b/xii/assembler/average_shape.py
@@ -90,7 +90,7 @@ class SquareRim(BoundingSurface):
     def __init__(self, P, degree):
         if isinstance(P, (tuple, list, np.ndarray)):
             assert all(is_number(Pi) for Pi in P)
-            self.P = lambda x0, p=P: p
+            self.P = lambda x0, p=np.array(P): p
         else:
             self.P = P
 
-- 
2.43.0


From ebf2bcd621d4024168b6f9ce04349b9f18b9aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 15/36] fix: point trace of continuous functions

---
 xii/assembler/point_trace_matrix.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index 5f312c8..7b2f557 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -43,6 +43,9 @@ def point_trace_mat(V, TV, trace_mesh, data):
 
     x0, cell = data['point'], data['cell']
     if V.ufl_element().family() == 'Lagrange':
+        # Vertex index
+        if isinstance(x0, (np.int32, np.int64, np.uint32, np.uint64, int)):
+            x0 = V.mesh().coordinates()[x0]
         assert len(x0) == V.mesh().geometry().dim()        
         Tmat = point_trace_matrix_CG(V, TV, x0)
     else:
@@ -132,9 +135,8 @@ def point_trace_matrix_CG(V, TV, x0):
     all_dofs = V.dofmap().cell_dofs(cell).tolist()
     Vel = V.element()
     value_size = V.ufl_element().value_size()
-    basis_values = np.zeros(V.element().space_dimension()*value_size)
-
-    Vel.evaluate_basis_all(basis_values, x0, vertex_coordinates, cell_orientation)
+    basis_values = Vel.evaluate_basis_all(x0, vertex_coordinates, cell_orientation)
+    basis_values = basis_values.reshape((-1, value_size))
 
 
     # Scalar gets all
@@ -145,13 +147,13 @@ def point_trace_matrix_CG(V, TV, x0):
         component_dofs = lambda component: V.sub(component).dofmap().cell_dofs(cell)
         
     rows, cols, values = [], [], []
-    for row in map(int, TV.dofmap().cell_dofs(cell)):  # R^n components
-        sub_dofs = component_dofs(row)
+    for component, row in enumerate(map(int, TV.dofmap().cell_dofs(cell))):  # R^n components
+        sub_dofs = component_dofs(component)
         sub_dofs_local = [all_dofs.index(dof) for dof in sub_dofs]
 
         rows.extend([row]*len(sub_dofs))
         cols.extend(sub_dofs)
-        values.extend(basis_values[sub_dofs_local].flat)
+        values.extend(basis_values[sub_dofs_local, component])
 
     mat = csr_matrix((values, (rows, cols)), shape=(TV.dim(), V.dim()))        
 
-- 
2.43.0


From 3b36c9ae153e63a4365b130845bcf923405ca27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 16/36] fix: gradient point traces in different directions are
 different operators

---
 xii/assembler/point_trace_matrix.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index 7b2f557..3c789b5 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -21,6 +21,17 @@ def memoize_point_trace(foo):
             key = key + tuple(data['cell'])
         except:
             key = key + (data['cell'], )            
+
+        # Directional derivatives depend also on the direction
+        if 'tangent' in data:
+            tangent = data['tangent']
+            if isinstance(tangent, df.Constant):
+                tangent = tangent.values()
+            elif isinstance(tangent, df.Function):
+                mesh = V.mesh()
+                midpoint = Cell(mesh, data['cell']).midpoint().array()
+                tangent = tangent(midpoint[:mesh.geometry().dim()])
+            key = key + tuple(np.array(tangent, dtype=float).flatten())
                
         if key not in cache:
             cache[key] = foo(V, TV, trace_mesh, data)
-- 
2.43.0


From 08b11679d536f2bcf99324a00821d0241612f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:02 +0000
Subject: [PATCH 17/36] fix: coloured patch average when several values share a
 patch

---
 xii/assembler/patch_average_matrix.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 81994c0..2d77c72 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -129,7 +129,7 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
     color_ids = vertex_f.vector().get_local()    
     # We will do the integration a group at a time
     groups = defaultdict(list)
-    for color in np.asarray(color_ids, dtype='uintp'):
+    for color in np.unique(np.asarray(color_ids, dtype='uintp')):
         if color not in coloring:
             continue
         group = coloring[color]
@@ -167,11 +167,9 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
             volumes[color] = patch_volume
             columns[color] = patch_dofs
 
-            d = np.abs(color_ids - color)
-            index = np.argmin(d)
-            assert d[index] < 1E-13
-            
-            rows[color] = index
+            # Several dofs can share the patch
+            rows[color], = np.where(np.abs(color_ids - color) < 1E-13)
+            assert len(rows[color])
         # Integrate over group!
         df.assemble(average_form, tensor=v_dofs)
         v_dofs_arr = v_dofs.get_local()
@@ -179,9 +177,10 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
         for color in group_colors:
             patch_values = v_dofs_arr[columns[color]]/volumes[color]
             # Update matrix
-            ii.extend(rows[color]*np.ones_like(columns[color]))
-            jj.extend(columns[color])
-            values.extend(patch_values)
+            for row in rows[color]:
+                ii.extend(row*np.ones_like(columns[color]))
+                jj.extend(columns[color])
+                values.extend(patch_values)
             
         # Reset for next round
         chi_array[:] = 0
-- 
2.43.0


From 3f184f434a8ea705e1f783b8f9e65dffa3637a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:47 +0000
Subject: [PATCH 18/36] fix: point traces mark a copy of the function

---
 xii/assembler/ufl_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index bd692b8..fa7fe56 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -133,6 +133,10 @@ def reconstruct(f):
 
     if is_test_function(f):
         return df.TestFunction(f.function_space())
+
+    # Shares the vector
+    if isinstance(f, df.Function):
+        return df.Function(f.function_space(), f.vector())
     
     # Others?
     return f
-- 
2.43.0


From ef298d739ad985629ff533aa4a4bffd4362752ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:47 +0000
Subject: [PATCH 19/36] fix: expressions match only with as many operands

---
 xii/assembler/ufl_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index fa7fe56..f849e20 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -70,6 +70,7 @@ def matches(expr, target, attributes=None):
     # Not terminal need to agree on type and have the same argument
     if not is_terminal(expr) and not is_terminal(target):
         return all((isinstance(expr, type(target)),
+                    len(expr.ufl_operands) == len(target.ufl_operands),
                     all(matches(*ops, attributes=None)
                         for ops in zip(expr.ufl_operands, target.ufl_operands))))
     return False
-- 
2.43.0


From 367ba0a7c98cb6f751ea9f180614528bc24f7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 20/36] fix: adjoint form keeps all reductions and exchanges
 arguments of the same space

---
 xii/assembler/block_form.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/xii/assembler/block_form.py b/xii/assembler/block_form.py
index cb0620c..1a8d009 100644
--- a/xii/assembler/block_form.py
+++ b/xii/assembler/block_form.py
@@ -191,9 +191,12 @@ def form_adjoint(expr):
     # then exchange the two while keeping track of trace attributes
     arguments = set([f for f in traverse_terminals(expr) if isinstance(f, Argument)])
 
-    ii_attrs = ('trace_', 'restriction_', 'average_')
+    ii_attrs = ('trace_', 'transpose_trace_', 'restriction_', 'extension_', 'injection_',
+                'average_', 'flux_average_', 'patch_average_', 'mean_', 'surface_mean_',
+                'dirac_', 'grad_dirac_')
 
     adj_type = {0: TrialFunction, 1: TestFunction}
+    adj_args = []
     for arg in arguments:
         adj_arg = adj_type[arg.number()](arg.function_space())
         # Record trace attributes
@@ -202,8 +205,14 @@ def form_adjoint(expr):
             if hasattr(arg, attr):
                 setattr(adj_arg, attr, getattr(arg, attr))
                 attrs.append(attr)
-        # Substitute
-        expr = ii_replace(expr, arg, adj_arg, attrs)
+        # Substitute; the arguments can be from the same space so one exchange
+        # must not be undone by the other
+        placeholder = Function(arg.function_space())
+        expr = ii_replace(expr, arg, placeholder, attrs)
+        adj_args.append((placeholder, adj_arg))
+
+    for placeholder, adj_arg in adj_args:
+        expr = ii_replace(expr, placeholder, adj_arg)
 
     return expr
 
@@ -239,8 +248,7 @@ def permute(bform, ordering):
     #                                       old[2] is new[1]
     #                                          [3] is new[2]    
     # Continuous range
-    step,  = set(np.diff(np.sort(ordering)))
-    assert abs(step) == 1
+    assert set(np.diff(np.sort(ordering))) <= {1}
 
     # Sensible 
     assert len(ordering) == len(bform.V0)
-- 
2.43.0


From 10a46eb4881de3066d0b65ee4f18713ef26f2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:09 +0000
Subject: [PATCH 21/36] fix: line meshes keep branches of one segment and loops

---
 xii/meshing/generation.py | 6 ++++--
 xii/meshing/line_mesh.py  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/xii/meshing/generation.py b/xii/meshing/generation.py
index 8b82948..11e5ede 100644
--- a/xii/meshing/generation.py
+++ b/xii/meshing/generation.py
@@ -4,6 +4,7 @@ import numpy as np
 
 def line_mesh(branches, tol=1E-13):
     '''1d in 2d/3d mesh made up of branches. Branch = linked vertices'''
+    branches = list(branches)
     it_branches = iter(branches)
 
     # In the mesh that we are building I want to put first the end nodes
@@ -15,6 +16,9 @@ def line_mesh(branches, tol=1E-13):
     ext_nodes = branch[[0, -1]]
 
     ext_bounds = [(0, 1)]
+    # The branch can be a loop
+    if np.linalg.norm(ext_nodes[0] - ext_nodes[1], 2) <= tol:
+        ext_nodes, ext_bounds = ext_nodes[:1], [(0, 0)]
     # For the other ones need to check collisions
     for branch in it_branches:
         endpoints = branch[[0, -1]]
@@ -36,8 +40,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
diff --git a/xii/meshing/line_mesh.py b/xii/meshing/line_mesh.py
index 6350b08..bcaa339 100644
--- a/xii/meshing/line_mesh.py
+++ b/xii/meshing/line_mesh.py
@@ -4,6 +4,7 @@ import numpy as np
 
 def line_mesh(branches, tol=1E-13):
     '''1d in 2d/3d mesh made up of branches. Branch = linked vertices'''
+    branches = list(branches)
     it_branches = iter(branches)
 
     # In the mesh that we are building I want to put first the end nodes
@@ -15,6 +16,9 @@ def line_mesh(branches, tol=1E-13):
     ext_nodes = branch[[0, -1]]
 
     ext_bounds = [(0, 1)]
+    # The branch can be a loop
+    if np.linalg.norm(ext_nodes[0] - ext_nodes[1], 2) <= tol:
+        ext_nodes, ext_bounds = ext_nodes[:1], [(0, 0)]
     # For the other ones need to check collisions
     for branch in it_branches:
         endpoints = branch[[0, -1]]
@@ -36,8 +40,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
-- 
2.43.0


From e92464cbd04504ff6f23e1a4904fee13feb1c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:09 +0000
Subject: [PATCH 22/36] fix: circumcenter of segments in space

---
 xii/meshing/cell_centers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 87fec56..0f2eee1 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -73,12 +73,13 @@ public:
     std::vector<double> coordinates;
     cell.get_vertex_coordinates(coordinates);
 
-    Eigen::Vector2d v0(coordinates[0], coordinates[1], coordinates[2]);
-    Eigen::Vector2d v1(coordinates[3], coordinates[4], coordinates[5]);
-    Eigen::Vector2d y = 0.5*(v0 + v1);
+    Eigen::Vector3d v0(coordinates[0], coordinates[1], coordinates[2]);
+    Eigen::Vector3d v1(coordinates[3], coordinates[4], coordinates[5]);
+    Eigen::Vector3d y = 0.5*(v0 + v1);
     // Just midpoint
     values[0] = y[0];
     values[1] = y[1];
+    values[2] = y[2];
   }
 
   std::shared_ptr<dolfin::Mesh> mesh;
-- 
2.43.0


From 6a6df8279b07e56c6db1ec0e56d0ed6ac940d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:09 +0000
Subject: [PATCH 23/36] fix: union of several meshes, of networks and of unions

---
 xii/meshing/union_mesh.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index 2042e07..df58283 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -13,8 +13,9 @@ def union_mesh(meshes, tol=1E-12):
         return meshes[0]
     # Recurse
     if num_meshes > 2:
-        return union_mesh([union_mesh(meshes[:num_meshes/2+1]),
-                           union_mesh(meshes[num_meshes/2+1:])])
+        half = num_meshes//2+1
+        return union_mesh([union_mesh(meshes[:half], tol),
+                           union_mesh(meshes[half:], tol)], tol)
 
     gdim, = set(m.geometry().dim() for m in meshes)
     tdim, = set(m.topology().dim() for m in meshes)
@@ -30,11 +31,16 @@ def union_mesh(meshes, tol=1E-12):
     bdry_vertices0, bdry_vertices1 = list(map(list, (set(np.concatenate([f.entities(0) for f in SubsetIterator(bdry, 1)]))
                                                 for bdry in bdries)))
     
+    # Vertices where the leafs were glued can be inside by now, but other
+    # meshes can meet there too, e.g. branches of a network
+    bdry_vertices0, bdry_vertices1 = (list(set(bdry) | set(getattr(m, 'glued', ())))
+                                      for bdry, m in zip((bdry_vertices0, bdry_vertices1), meshes))
+
     x0, x1 = [m.coordinates() for m in meshes]
 
     x1 = x1[bdry_vertices1]
     shared_vertices = {}
-    while bdry_vertices0:
+    while bdry_vertices0 and bdry_vertices1:
         i = bdry_vertices0.pop()
         x = x0[i]
         # Try to match it
@@ -68,15 +74,18 @@ def union_mesh(meshes, tol=1E-12):
     merged_mesh = make_mesh(coordinates=merge_x,
                             cells=merged_cells, tdim=tdim, gdim=gdim)
 
+    merged_mesh.glued = (set(getattr(mesh0, 'glued', ())) | set(shared_vertices.values()) |
+                         set(lg1[v] for v in getattr(mesh1, 'glued', ())))
+
     lg0 = np.arange(mesh0.num_vertices())
     # Mapping from leafs
     if not hasattr(mesh0, 'leafs'):
         merged_mesh.leafs = [(mesh0.id(), lg0)]
     else:
-        merged_mesh.leafs = mesh0.leafs
+        merged_mesh.leafs = list(mesh0.leafs)
         
     if not hasattr(mesh1, 'leafs'):
-        merged_mesh.leafs.append([mesh1.id(), lg1])
+        merged_mesh.leafs.append((mesh1.id(), lg1))
     else:
         for id_, map_ in mesh1.leafs:
             merged_mesh.leafs.append((id_, lg1[map_]))
-- 
2.43.0


From e6b9b7b60604a3737b3be661a94aae759990219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:29 +0000
Subject: [PATCH 24/36] fix: colors of loops apart from branches, tangents of
 loops and networks, normals of plane curves

---
 xii/meshing/branching.py     | 18 +++++++++---
 xii/meshing/embedded_mesh.py | 57 +++++++++++++++++++++---------------
 2 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/xii/meshing/branching.py b/xii/meshing/branching.py
index 69dc265..49f4120 100644
--- a/xii/meshing/branching.py
+++ b/xii/meshing/branching.py
@@ -31,9 +31,6 @@ def color_branches(mesh):
     terminals = {v: set(v2c(v)) for v in range(mesh.num_vertices()) if len(v2c(v)) != 2}
     
     cell_f = df.MeshFunction('size_t', mesh, 1, 0)
-    if not terminals:
-        cell_f.set_all(1)
-        return cell_f, [], [1]
 
     def next_vertex(c, v, c2v=c2v):
         v0, v1 = c2v(c)
@@ -46,7 +43,7 @@ def color_branches(mesh):
     values = cell_f.array()
     branch_colors, loop_colors, color = [], [], 0
 
-    exhausted = False
+    exhausted = not terminals
     while not exhausted:
         vertex = max(terminals, key=lambda v: terminals[v])
         vertex_cells = terminals[vertex]
@@ -81,6 +78,18 @@ def color_branches(mesh):
             # same way we arrived
             v0 in terminals and link_cell in terminals[v0] and terminals[v0].remove(link_cell)
 
+    # What could not be reached from terminals are closed loops
+    while not np.all(values):
+        link_cell = np.argmin(values)
+        v0 = c2v(link_cell)[0]
+        
+        color += 1
+        loop_colors.append(color)
+        while values[link_cell] == 0:
+            values[link_cell] = color
+            v0 = next_vertex(link_cell, v0)
+            link_cell = next_cell(v0, link_cell)
+
     return cell_f, branch_colors, loop_colors
 
 
@@ -93,6 +102,7 @@ def walk_vertices(arg, tag=None, is_loop=False):
         assert arg.dim() == 1
     else:
         mesh = arg
+        arg, tag = df.MeshFunction('size_t', mesh, 1, 1), 1
         
     assert mesh.topology().dim() == 1 and mesh.geometry().dim() > 1
     # The boring cese
diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index bf682ce..643bb48 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -3,6 +3,7 @@ import xii
 from functools import reduce
 from itertools import chain, dropwhile, repeat
 from .make_mesh_cpp import make_mesh
+from .branching import is_loop
 from .dg_utils import OrientedFacetNormal, pcws_constant
 import networkx as nx
 from collections import defaultdict
@@ -510,8 +511,8 @@ def wind_number(mesh, points):
 
 
 def encloses_points(mesh, points, tol=1E-2):
-    '''Point is outside/not enclosed if it wind number is > tol'''
-    return wind_number(mesh, points) > tol
+    '''Point is enclosed if its wind number (sign is that of orientation) is > tol'''
+    return np.abs(wind_number(mesh, points)) > tol
 
 
 def NormalCurve(mesh, outside=None, tol=1E-2):
@@ -522,14 +523,18 @@ def NormalCurve(mesh, outside=None, tol=1E-2):
         outside = np.max(mesh.coordinates(), axis=0) + np.ones(2)
     assert outside.shape == (2, )
     
-    n,  = wind_number(mesh, np.array([outside]))
-    if abs(n) < tol:
-        # Orient with
-        R = df.Constant(((0, 1), (-1, 0)))
-    else:
-        R = df.Constant(((0, -1), (1, 0)))
-        
     t = TangentCurve(mesh)
+    # Rotation of t that points out of the area enclosed by the curve
+    R = df.Constant(((0, 1), (-1, 0)))
+    x = df.SpatialCoordinate(mesh)
+    if df.assemble(df.inner(x, df.dot(R, t))*df.dx) < 0:
+        R = df.Constant(((0, -1), (1, 0)))
+
+    n,  = wind_number(mesh, np.array([outside]))
+    if abs(n) > tol:
+        # Orient with the point
+        R = -R
+
     V = t.function_space()
     v = df.TestFunction(V)
 
@@ -558,27 +563,33 @@ class TangentCurve(df.Function):
         roots = [v for v in range(mesh.num_vertices()) if len(v2c(v)) == 1]
         values = np.zeros(V.dim()).reshape((-1, gdim))
         visited = np.zeros(mesh.num_cells(), dtype=bool)        
-        if roots:
-            if root is not None:
-                assert root in roots
-            else:
-                root = roots.pop()
-                
-            g = nx.Graph()
-            g.add_edges_from(mesh.cells())
-
-            for (v0, v1) in nx.algorithms.traversal.dfs_edges(g, root):
+        if root is not None:
+            assert root in roots
+            roots.append(root)
+
+        g = nx.Graph()
+        g.add_edges_from(mesh.cells())
+        # Follow the curve from the root, pieces of the curve that are not
+        # connected to it from their own roots, without those from where
+        # branches meet (any vertex in case of loops)
+        starts = chain(reversed(roots), sorted(g, key=lambda v: len(v2c(v)) == 2))
+        reached = {}
+        for start in starts:
+            if start in reached: continue
+
+            for v in nx.algorithms.traversal.dfs_preorder_nodes(g, start):
+                reached[v] = len(reached)
+
+            for (v0, v1) in nx.algorithms.traversal.dfs_edges(g, start):
                 cell, = set(v2c(v0)) & set(v2c(v1))
                 v0, v1 = X[v0], X[v1]
 
                 t = (v1 - v0)/np.linalg.norm(v1-v0)
                 values[cell, :] = t
                 visited[cell] = True
-
-        np.any(visited) and print('Found unvisited edges in tangent curve computation')
-                
+        # The rest closes loops and leads back to where we came from
         for cell in np.where(~visited)[0]:
-            v0, v1 = c2v(cell)
+            v1, v0 = sorted(c2v(cell), key=reached.get)
             v0, v1 = X[v0], X[v1]
 
             t = (v1 - v0)/np.linalg.norm(v1-v0)
-- 
2.43.0


From 8000ed1c7b8278cfb5d51b1cfac181b48844e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 25/36] fix: constants in vectors of the block nullspace

---
 xii/linalg/block_nullspace.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xii/linalg/block_nullspace.py b/xii/linalg/block_nullspace.py
index 005b076..8b08654 100644
--- a/xii/linalg/block_nullspace.py
+++ b/xii/linalg/block_nullspace.py
@@ -1,3 +1,4 @@
+from block import block_vec
 import dolfin
 
 
@@ -22,15 +23,17 @@ class BlockNullspace(object):
     def add_vector(self, vec):
         '''Try adding new linearly indep vector'''
         # Orthogonalize wrt previous
-        vec = vec.copy()
+        vec = block_vec(list(vec))
         # Substite constancts
         for i, vi in enumerate(vec):
             if isinstance(vi, dolfin.Constant):
-                vec[i] = interpolate(vi, self.W[i]).vector()
+                vec[i] = dolfin.interpolate(vi, self.W[i]).vector()
             elif isinstance(vi, (float, int)):
-                vec[i] = interpolate(Constant(vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(vi), self.W[i]).vector()
             elif isinstance(vi, (list, tuple)):
-                vec[i] = interpolate(Constant(*vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(vi), self.W[i]).vector()
+            else:
+                vec[i] = vi.copy()
                 
         for b, alpha in zip(self, self.angles(vec)):
             assert abs(abs(alpha/vec.norm())-1) > 1E-10
-- 
2.43.0


From dd4b97806237daf3fed36255657f0b4d6ae5200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 26/36] fix: Riesz map of mean free spaces is the inverse on
 the complement, any basis of the nullspace

---
 xii/linalg/sherman_morrison.py | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/xii/linalg/sherman_morrison.py b/xii/linalg/sherman_morrison.py
index 6bb8dc3..7a5d580 100644
--- a/xii/linalg/sherman_morrison.py
+++ b/xii/linalg/sherman_morrison.py
@@ -17,14 +17,9 @@ def orthonormalize(basis, M, tol=1E-10):
             G[i, j] = zi.inner(M*zj)
             G[j, i] = G[i, j]
 
-    vals, vecs = np.linalg.eig(G)
-    # Symmatric matrices have real spectra so something would be wrong if
-    assert np.all(np.abs(vals.imag) < tol)
-    vals = vals.real
+    vals, vecs = np.linalg.eigh(G)
     # The matrix should have been an inner product so 
     assert np.all(vals > 0)
-    # Want invariant subspaces of dim 1 for each eigenvalue, so unique eigenvalues
-    assert len(np.unique(np.round(vals, int(-np.log10(tol))))) == len(vals)
 
     vecs = vecs.T 
 
@@ -100,29 +95,12 @@ class L20_riesz_map(block_base):
         block_base.__init__(self)
         self.P = Projector(V, nullspace)
         self.iM = inv(self.P.M)
-        # M - (M*Z)*Z.T*M = M*P and so we want inv(P)*inv(M)
-        # inv(P) uses woodbory formula applied to id - outer(pi, di)
-        #
-        #   inv(id - outer(pi, di)) = id + outer(pi, di)/(1-sum(inner(pi, di)))
-        #
-        self.primal_basis = self.P.primal_basis
-        self.dual_basis = self.P.dual_basis
-        # The denominator 1-sum(inner(pi, di)) can be precomputed and since
-        # inner(pi, di) = 1 we have
-        self.scale = 1 - len(self.primal_basis)
+        # M - (M*Z)*Z.T*M = M*P which is invertible only on the complement of
+        # the nullspace. There P is identity so the inverse is P*inv(M)
 
     def matvec(self, x):
-        '''Sherman-Woodburry'''
-        y = self.iM*x  # From dual to primal
-        basis = zip(self.primal_basis, self.dual_basis)
-
-        pi, di = next(basis)
-        w = di.inner(y)*pi
-        for pi, di in basis:
-            w.axpy(di.inner(y), pi)
-        w *= (1/self.scale)
-        
-        return x + w
+        '''Dual vector to primal one in the complement of the nullspace'''
+        return self.P*(self.iM*x)
     
 # -------------------------------------------------------------------
 
@@ -156,4 +134,4 @@ if __name__ == '__main__':
     iL20 = L20_riesz_map(V, nullspace)
     y = iL20*x  # Apply some operator that is "blind" on the nullspace
     # Check inverse
-    assert norm(x-y) < 1E-13
+    assert norm(Pfh.vector()-y) < 1E-10
-- 
2.43.0


From 84ea973105b859a9f5e1cb20ac27ea5d4d21e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 27/36] fix: injection matrix for parent maps in any order and
 as a matrix that can be collapsed, dofs that are not nodal

---
 xii/assembler/injection_matrix.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 19f450a..8a55901 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -17,7 +17,8 @@ def memoize_inj(inj_mat):
     def cached_inj_mat(Vc, Vf, fine_mesh, data):
         key = ((Vc.ufl_element(), Vc.mesh().id()),
                (Vf.ufl_element(), Vf.mesh().id()),
-               fine_mesh.id())
+               fine_mesh.id(),
+               data['not_nested_method'])
                
         if key not in cache:
             cache[key] = inj_mat(Vc, Vf, fine_mesh, data)
@@ -26,6 +27,16 @@ def memoize_inj(inj_mat):
     return cached_inj_mat
 
 
+def is_nodal(V):
+    '''
+    Dofs are values in points, which tell the dofs of a component apart. 
+    Transfer matrix of PETScDMCollection requires this
+    '''
+    family, degree = V.ufl_element().family(), V.ufl_element().degree()
+    
+    return family == 'Lagrange' or (family, degree) == ('Discontinuous Lagrange', 0)
+
+
 @memoize_inj
 def injection_matrix(Vc, Vf, fine_mesh, data):
     '''Injection mapping from Vc to Vf'''
@@ -33,7 +44,7 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
     assert fine_mesh.id() == Vf.mesh().id()
     mesh_f = Vf.mesh()
 
-    if data['not_nested_method'] == 'interpolate':
+    if data['not_nested_method'] == 'interpolate' and is_nodal(Vf):
         return df.PETScDMCollection.create_transfer_matrix(Vc, Vf)
     elif data['not_nested_method'] == 'project':
         raise ValueError('Missing projection')
@@ -45,7 +56,7 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
     # Refine was used to create it
     keys, fine_to_coarse = list(zip(*list(fine_mesh.parent_entity_map[mesh_c.id()][tdim].items())))
     fine_to_coarse = np.array(fine_to_coarse, dtype='uintp')
-    fine_to_coarse[np.argsort(keys)] = fine_to_coarse
+    fine_to_coarse = fine_to_coarse[np.argsort(keys)]
         
     # The idea is to evaluate Vf's degrees of freedom at basis functions of Vc
     fdmap = Vf.dofmap()
@@ -84,8 +95,6 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
             ii.extend([dof]*len(coarse_dofs))
             jj.extend(coarse_dofs)
             vals.extend(row_values)
-            # Insert
-            mat.setValues([dof], coarse_dofs, row_values, PETSc.InsertMode.INSERT_VALUES)
 
     mat = csr_matrix((vals, (ii, jj)), shape=(Vf.dim(), Vc.dim()))        
 
@@ -95,4 +104,4 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
 
     mat.assemble()
 
-    return mat
+    return df.PETScMatrix(mat)
-- 
2.43.0


From 8ce4dacf909d60e79624d2d1eaf98a363371674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 28/36] fix: injection uses the parent cells only of the mesh
 which was refined

---
 xii/assembler/injection_form.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xii/assembler/injection_form.py b/xii/assembler/injection_form.py
index a2f504d..575c120 100644
--- a/xii/assembler/injection_form.py
+++ b/xii/assembler/injection_form.py
@@ -25,6 +25,13 @@ def injection_space(V, mesh):
     return df.FunctionSpace(mesh, V.ufl_element())
 
 
+def is_parent_map(cmap, fmesh, cmesh):
+    '''Does map of cells take each cell of fmesh to that of cmesh with it?'''
+    return (len(cmap) == fmesh.num_cells() and max(cmap) < cmesh.num_cells() and
+            all(df.Cell(cmesh, c).contains(f.midpoint())
+                for f, c in zip(df.cells(fmesh), cmap)))
+
+
 def Injection(v, fmesh, not_nested_method='interpolate'):
     '''
     Annotated function for being a injection from space on coarse mesh 
@@ -42,13 +49,17 @@ def Injection(v, fmesh, not_nested_method='interpolate'):
         if not has_data:
             try:
                 cmap = fmesh.data().array('parent_cell', fmesh.topology().dim())
+            except RuntimeError:
+                cmap = ()
+            # Mesh that was refined need not be cmesh
+            has_data = is_parent_map(cmap, fmesh, cmesh)
+
+            if has_data:
                 tdim = fmesh.topology().dim()
                 # NOTE: there is no vertex map
-                fmesh.parent_entity_map = {cmesh.id(): {tdim: dict(enumerate(cmap))}}
-                has_data = True
-                
-            except RuntimeError:
-                pass
+                if not hasattr(fmesh, 'parent_entity_map'):
+                    fmesh.parent_entity_map = {}
+                fmesh.parent_entity_map[cmesh.id()] = {tdim: dict(enumerate(cmap))}
 
         if has_data:
             assert cmesh.id() in fmesh.parent_entity_map
-- 
2.43.0


From b0fd5bd9b5f4afb92f43b0a90e2350659f24a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 29/36] fix: basis functions can be evaluated at a point

---
 xii/assembler/fem_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/fem_eval.py b/xii/assembler/fem_eval.py
index f77e36f..b5bc5be 100644
--- a/xii/assembler/fem_eval.py
+++ b/xii/assembler/fem_eval.py
@@ -102,7 +102,7 @@ class FEBasisFunction(UserExpression):
                                             self.__cell_orientation)
 
     def __call__(self, x):
-        self.eval(self.__values, x)
+        self.eval_cell(self.__values, x, self.__cell)
         return 1*self.__values
 
 # --------------------------------------------------------------------
-- 
2.43.0


From 3797784d3ed4e2239aab691d128e51aff2e96e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 30/36] fix: interface maps of mortar meshes

---
 xii/meshing/mortar_mesh.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xii/meshing/mortar_mesh.py b/xii/meshing/mortar_mesh.py
index ed94252..a4d3a4b 100644
--- a/xii/meshing/mortar_mesh.py
+++ b/xii/meshing/mortar_mesh.py
@@ -69,8 +69,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     subdomain_meshes = {tag: EmbeddedMesh(subdomains, tag) for tag in markers}
 
     # Alloc the entity maps for the embedded mesh
-    interface_map = {subdomain_meshes[tag].id(): [None]*interface_mesh.num_cells()
-                     for tag in markers}
+    interface_map = {subdomain_meshes[tag].id(): {} for tag in markers}
     
     # THe maps are filled by the following idea. Using marking function
     # of interface mesh one cat get cells of that color and useing entity
@@ -83,7 +82,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     sub_mesh_map = lambda tag: dict(
         (mesh_c, submesh_c)
         for submesh_c, mesh_c in
-        enumerate(subdomain_meshes[tag].parent_entity_map[mesh.id()][tdim])
+        subdomain_meshes[tag].parent_entity_map[mesh.id()][tdim].items()
     )
 
     # Thec cell-cell connectivity of each submesh
@@ -109,10 +108,12 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
                 
                 found = False
                 for submesh_facet in df.facets(df.Cell(submesh, local_cell)):
-                    found = df.near(cell.midpoint().distance(submesh_facet.midpoint()), 0, tol)
+                    x, y = cell.midpoint(), submesh_facet.midpoint()
+                    found = df.near(x.distance(y), 0, tol*max(1, x.norm()))
                     if found:
                         interface_map[mesh_id][cell_index] = submesh_facet.index()
                         break
+                assert found
 
     # Collapse to list; I want list indexing
     subdomain_meshes = np.array([subdomain_meshes[m] for m in markers]) 
-- 
2.43.0


From 504346c9964954eb44c73e5d645ddab0fae99139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 31/36] fix: block Jacobian of residuals with any of the
 reductions and with expressions

---
 xii/nonlin/jacobian.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xii/nonlin/jacobian.py b/xii/nonlin/jacobian.py
index 10148d6..f25abf3 100644
--- a/xii/nonlin/jacobian.py
+++ b/xii/nonlin/jacobian.py
@@ -34,9 +34,15 @@ def block_jacobian(bf, foos):
     return [[ii_derivative(bfi, fj) for fj in foos] for bfi in bf]
 
 
+# Marks of reduced arguments
+REDUCTIONS = ('trace_', 'transpose_trace_', 'average_', 'restriction_',
+              'injection_', 'mean_', 'patch_average_',
+              'surface_mean_', 'dirac_', 'grad_dirac_')
+
+
 def is_restricted(x):
     '''Is x marked for restriction (in some way we support)'''
-    for rtype in ('trace_', 'average_', 'restriction_'):
+    for rtype in REDUCTIONS:
         if hasattr(x, rtype):
             return True
         
@@ -47,7 +53,7 @@ def restriction_type(x):
     '''How is x restricted'''
     assert is_restricted(x)
 
-    for rtype in ('trace_', 'average_', 'restriction_'):
+    for rtype in REDUCTIONS:
         if hasattr(x, rtype):
             return rtype
 
@@ -72,7 +78,7 @@ def ii_derivative(f, x):
     # NOTE: in the following I try to avoid assembly of zero forms because
     # these might not be well-defined for xii assembler. Also, assembling
     # zeros is useless
-    for fi in [c for c in f.coefficients() if not isinstance(c, df.Constant)]:
+    for fi in [c for c in f.coefficients() if isinstance(c, df.Function)]:
         # Short circuit if (partial fi)/(partial x) is 0
         if not ((fi == x) or fi.vector().id() == x.vector().id()): continue
 
-- 
2.43.0


From 27b2d354a021d302b9940cb8fee6d6c01c884f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 32/36] fix: cached reduction operators are told apart by
 values of their data

---
 xii/assembler/average_matrix.py         |  7 ++-
 xii/assembler/cache_keys.py             | 74 +++++++++++++++++++++++++
 xii/assembler/flux_average_matrix.py    |  7 ++-
 xii/assembler/injection_matrix.py       |  5 +-
 xii/assembler/interpolation_matrix.py   |  5 +-
 xii/assembler/mean_matrix.py            |  7 ++-
 xii/assembler/patch_average_matrix.py   |  8 ++-
 xii/assembler/point_trace_matrix.py     |  9 +--
 xii/assembler/restriction_matrix.py     |  5 +-
 xii/assembler/surface_mean_matrix.py    |  5 +-
 xii/assembler/trace_matrix.py           |  7 ++-
 xii/assembler/transpose_trace_matrix.py |  5 +-
 12 files changed, 115 insertions(+), 29 deletions(-)
 create mode 100644 xii/assembler/cache_keys.py

diff --git a/xii/assembler/average_matrix.py b/xii/assembler/average_matrix.py
index 55ff0ec..e0ea507 100644
--- a/xii/assembler/average_matrix.py
+++ b/xii/assembler/average_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
 from xii.assembler.average_form import average_cell, average_space
 
@@ -13,9 +14,9 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
-               data['shape'])
+        key = (space_key(V),
+               space_key(TV),
+               value_key(data['shape']))
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/cache_keys.py b/xii/assembler/cache_keys.py
new file mode 100644
index 0000000..4c1eb13
--- /dev/null
+++ b/xii/assembler/cache_keys.py
@@ -0,0 +1,74 @@
+from xii.linalg.matrix_utils import is_number
+import dolfin as df
+import ufl_legacy as ufl
+import numpy as np
+import hashlib
+import inspect
+
+# Data of reduction operators that might be changed in place enters keys of
+# their caches by value
+
+
+def array_key(array):
+    '''By entries'''
+    array = np.ascontiguousarray(array)
+    return (array.shape, hashlib.sha1(array.tobytes()).hexdigest())
+
+
+def space_key(V):
+    '''Numbering of dofs and cells for which it is'''
+    mesh = V.mesh()
+    dofs = V.dofmap().entity_closure_dofs(mesh, mesh.topology().dim())
+
+    return (V.ufl_element(), mesh.id(), mesh.hash(), array_key(dofs))
+
+
+def value_key(x):
+    '''By value for objects with data that we know how to get to'''
+    if x is None or is_number(x) or isinstance(x, (str, bytes)):
+        return x
+
+    if isinstance(x, df.Constant):
+        return ('Constant', x.ufl_shape, array_key(x.values()))
+
+    if isinstance(x, df.Function):
+        return ('Function', space_key(x.function_space()), array_key(x.vector().get_local()))
+
+    if isinstance(x, df.FunctionSpace):
+        return space_key(x)
+
+    # No way of knowing what the value depends on so never the same
+    if isinstance(x, (df.Expression, df.UserExpression)):
+        return object()
+
+    if isinstance(x, ufl.Measure):
+        return (x.integral_type(), x.ufl_domain(), x.subdomain_id(),
+                value_key(x.metadata()), value_key(x.subdomain_data()))
+
+    if isinstance(x, ufl.core.expr.Expr):
+        return x if not x.ufl_operands else (type(x), ) + tuple(map(value_key, x.ufl_operands))
+
+    if isinstance(x, df.Point):
+        return ('Point', array_key(x.array()))
+
+    if isinstance(x, np.ndarray):
+        return array_key(x)
+
+    if isinstance(x, (tuple, list)):
+        return tuple(map(value_key, x))
+
+    if isinstance(x, (set, frozenset)):
+        return frozenset(map(value_key, x))
+
+    if isinstance(x, dict):
+        return frozenset((value_key(k), value_key(v)) for k, v in x.items())
+
+    # Mesh functions
+    if hasattr(x, 'mesh') and hasattr(x, 'array'):
+        return (x.mesh().id(), x.dim(), array_key(x.array()))
+
+    # Shapes and such
+    if hasattr(x, '__dict__') and not (isinstance(x, type) or inspect.isroutine(x)):
+        return (x, value_key(vars(x)))
+
+    return x
diff --git a/xii/assembler/flux_average_matrix.py b/xii/assembler/flux_average_matrix.py
index 4e18069..ecd3735 100644
--- a/xii/assembler/flux_average_matrix.py
+++ b/xii/assembler/flux_average_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
 from xii.assembler.average_form import average_cell, average_space
 
@@ -13,9 +14,9 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
-               data['shape'])
+        key = (space_key(V),
+               space_key(TV),
+               value_key(data['shape']))
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 8a55901..c716724 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.linalg.matrix_utils import petsc_serial_matrix
 from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
 from xii import *
@@ -15,8 +16,8 @@ def memoize_inj(inj_mat):
     '''Cached injection'''
     cache = {}
     def cached_inj_mat(Vc, Vf, fine_mesh, data):
-        key = ((Vc.ufl_element(), Vc.mesh().id()),
-               (Vf.ufl_element(), Vf.mesh().id()),
+        key = (space_key(Vc),
+               space_key(Vf),
                fine_mesh.id(),
                data['not_nested_method'])
                
diff --git a/xii/assembler/interpolation_matrix.py b/xii/assembler/interpolation_matrix.py
index df1fda2..3838d8a 100644
--- a/xii/assembler/interpolation_matrix.py
+++ b/xii/assembler/interpolation_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.linalg.matrix_utils import petsc_serial_matrix
 from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
 from petsc4py import PETSc
@@ -9,8 +10,8 @@ def memoize_interp(f):
     '''Caching interpolation'''
     cache = {}
     def cached_interpolation_mat(V, Q):
-        key = ((V.ufl_element(), V.mesh().id(), V.mesh().num_cells()),
-               (Q.ufl_element(), Q.mesh().id(), Q.mesh().num_cells()))
+        key = (space_key(V),
+               space_key(Q))
                
         if key not in cache:
             cache[key] = f(V, Q)
diff --git a/xii/assembler/mean_matrix.py b/xii/assembler/mean_matrix.py
index 2153987..1409d64 100644
--- a/xii/assembler/mean_matrix.py
+++ b/xii/assembler/mean_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
 from xii.assembler.mean_form import mean_cell, mean_space
 
@@ -15,9 +16,9 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
-               data['weight'], data['measure'])
+        key = (space_key(V),
+               space_key(TV),
+               value_key(data['weight']), value_key(data['measure']))
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 2d77c72..b36c39e 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
 from xii.assembler.patch_average_form import patch_average_cell, patch_average_space
 
@@ -15,9 +16,10 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
-               data['vertex_f'], data['patch_f'])
+        key = (space_key(V),
+               space_key(TV),
+               value_key(data['vertex_f']), value_key(data['patch_f']),
+               value_key(data['patch_coloring']))
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index 3c789b5..cb1c78d 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from scipy.sparse import csr_matrix
 from dolfin import PETScMatrix, Point, Cell
 import dolfin as df
@@ -9,16 +10,16 @@ def memoize_point_trace(foo):
     '''Cached trace'''
     cache = {}
     def cached_trace_mat(V, TV, trace_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()))
+        key = (space_key(V),
+               space_key(TV))
 
         try:
-            key = key + tuple(data['point'])
+            key = key + (tuple(data['point']), )
         except:
             key = key + (data['point'], )
 
         try:
-            key = key + tuple(data['cell'])
+            key = key + (tuple(data['cell']), )
         except:
             key = key + (data['cell'], )            
 
diff --git a/xii/assembler/restriction_matrix.py b/xii/assembler/restriction_matrix.py
index bebd9ba..7228bd0 100644
--- a/xii/assembler/restriction_matrix.py
+++ b/xii/assembler/restriction_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.linalg.matrix_utils import petsc_serial_matrix
 from xii.assembler.restriction_assembly import restriction_cell
 from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
@@ -11,8 +12,8 @@ def memoize_restriction(restriction_mat):
     '''Cached restriction'''
     cache = {}
     def cached_restriction_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()))
+        key = (space_key(V),
+               space_key(TV))
 
         if key not in cache:
             cache[key] = restriction_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/surface_mean_matrix.py b/xii/assembler/surface_mean_matrix.py
index 1109365..4d04dec 100644
--- a/xii/assembler/surface_mean_matrix.py
+++ b/xii/assembler/surface_mean_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.linalg.matrix_utils import petsc_serial_matrix
 from xii.linalg.convert import convert
 import xii.assembler.trace_matrix as trace_m
@@ -14,8 +15,8 @@ def memoize_trace(trace_mat):
     '''Cached trace'''
     cache = {}
     def cached_trace_mat(V, TV, trace_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()))
+        key = (space_key(V),
+               space_key(TV))
                
         if key not in cache:
             cache[key] = trace_mat(V, TV, trace_mesh, data)
diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index a6749c6..9ea70d2 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.linalg.matrix_utils import petsc_serial_matrix
 from xii.assembler.trace_assembly import trace_cell
 from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
@@ -19,9 +20,9 @@ def memoize_trace(trace_mat):
     '''Cached trace'''
     cache = {}
     def cached_trace_mat(V, TV, trace_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
-               data['restriction'], data['normal'], tuple(data['tag_data'][1]))
+        key = (space_key(V),
+               space_key(TV),
+               data['restriction'], value_key(data['normal']), value_key(data['tag_data']))
                
         if key not in cache:
             cache[key] = trace_mat(V, TV, trace_mesh, data)
diff --git a/xii/assembler/transpose_trace_matrix.py b/xii/assembler/transpose_trace_matrix.py
index 49f9f6c..ad6432d 100644
--- a/xii/assembler/transpose_trace_matrix.py
+++ b/xii/assembler/transpose_trace_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.cache_keys import space_key, value_key
 from xii.assembler.trace_matrix import trace_mat_no_restrict
 import dolfin as df
 
@@ -7,8 +8,8 @@ def memoize_trace(trace_mat):
     '''Cached trace'''
     cache = {}
     def cached_trace_mat(V, TV, reduced_mesh, tag_data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
+        key = (space_key(V),
+               space_key(TV),
                reduced_mesh.id())
                
         if key not in cache:
-- 
2.43.0


From f2a14b1af298699c8860679c010c5f0ff545d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 33/36] fix: nullspace given to a PETSc operator is attached to
 it

---
 xii/linalg/block_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index d7d8bfd..95a80c6 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -100,9 +100,10 @@ def ii_PETScOperator(bmat, nullspace):
     mat.setPythonContext(Foo(bmat))
 
     if nullspace is not None:
-        Z = PETSc.NullSpace(constant=True,
-                            vectors=[as_backend_type(v).vec() for v in map(convert, nullspace)],
-                            comm=PETSc.COMM_WORLD)
+        # The vectors need the layout of those the operator acts on
+        as_petsc_vec = as_petsc_nest if is_block else as_petsc
+        Z = PETSc.NullSpace().create(vectors=list(map(as_petsc_vec, nullspace)),
+                                     comm=PETSc.COMM_WORLD)
         mat.setNullSpace(Z)
     mat.setUp()
 
-- 
2.43.0


From 5177fafb15813cf8cdeaeca8315e043fbc07624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 34/36] fix: shape of vectors and tensors in the trace space

---
 xii/assembler/trace_form.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/trace_form.py b/xii/assembler/trace_form.py
index 91a5683..0c94478 100644
--- a/xii/assembler/trace_form.py
+++ b/xii/assembler/trace_form.py
@@ -62,13 +62,15 @@ def trace_element(elm):
                    2: df.TensorElement}
     # So let's check first for elements where scalar = FiniteElm, vector == VectorElm 
     rank = len(elm.value_shape())
+    # The default shape of vectors and tensors is given by the cell
+    shape = ({}, {'dim': elm.value_size()}, {'shape': elm.value_shape()})[rank]
     if elmtype_map[rank] == type(elm):
         elm = type(elm)  # i.e. vector element stays vector element
     else:
         elm = elmtype_map[rank]
 
 
-    return elm(family, cell, degree)
+    return elm(family, cell, degree, **shape)
 
 
 def trace_space(V, mesh):
-- 
2.43.0


From 0b78bf4389a0fbe7a3aa0c2e7a5478f4482b8d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 35/36] fix: shape of vectors and tensors in the average space

---
 xii/assembler/average_form.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/average_form.py b/xii/assembler/average_form.py
index 9476555..7388116 100644
--- a/xii/assembler/average_form.py
+++ b/xii/assembler/average_form.py
@@ -44,12 +44,14 @@ def average_space(V, mesh):
     # So let's check first for elements where scalar = FiniteElm
     # vector == VectorElm etc
     rank = len(elm.value_shape())
+    # The default shape of vectors and tensors is given by the cell
+    shape = ({}, {'dim': elm.value_size()}, {'shape': elm.value_shape()})[rank]
     if elmtype_map[rank] == type(elm):
         elm = type(elm)  # I.e. vector element stays verctor element
     else:
         elm = elmtype_map[rank]
 
-    return df.FunctionSpace(mesh, elm(family, mesh.ufl_cell(), degree))
+    return df.FunctionSpace(mesh, elm(family, mesh.ufl_cell(), degree, **shape))
 
 
 def Average(v, line_mesh, shape):
-- 
2.43.0


From 72afa5e8c621ec3bbeca79eb0b214ac38866ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 36/36] fix: union of meshes where a merged part has no
 boundary

---
 xii/meshing/union_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index df58283..16aee69 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -28,7 +28,7 @@ def union_mesh(meshes, tol=1E-12):
     [m.init(fdim) for m in meshes]
     [m.init(fdim, 0) for m in meshes]
 
-    bdry_vertices0, bdry_vertices1 = list(map(list, (set(np.concatenate([f.entities(0) for f in SubsetIterator(bdry, 1)]))
+    bdry_vertices0, bdry_vertices1 = list(map(list, (set(v for f in SubsetIterator(bdry, 1) for v in f.entities(0))
                                                 for bdry in bdries)))
     
     # Vertices where the leafs were glued can be inside by now, but other
-- 
2.43.0

