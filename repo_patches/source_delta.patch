From 917ab0d2296374ad4721551a90e6d9306d88bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 01/69] fix: average and jump traces can be assembled and
 follow the convention of sided traces

---
 xii/assembler/trace_matrix.py | 47 +++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index c659b10..76b1300 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -252,7 +252,7 @@ def DLT_trace_mat(V, TV, trace_mesh=None, tag_data=None):
 def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data=None):
     '''
     Compute the trace values using +/- restriction. A + plus is the one 
-    for which the vector cell.midpoint - facet.midpoint agrees in orientation
+    for which the vector facet.midpoint - cell.midpoint agrees in orientation
     with the normal on the facet.
     '''
     assert normal.function_space().ufl_element().family() == 'Discontinuous Lagrange'
@@ -412,19 +412,32 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
                                  csr=(mat.indptr, mat.indices, mat.data))
 
 
-def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
+def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data=None):
     '''
-    Compute the trace values using avg/jump restriction. A + plus is the one 
-    for which the vector cell.midpoint - facet.midpoint agrees in orientation
-    with the normal on the facet.
+    Compute the trace values using avg/jump restriction. As with the one sided
+    restriction, + is the cell for which the vector facet.midpoint - cell.midpoint 
+    agrees in orientation with the normal on the facet.
     '''
+    assert normal.function_space().ufl_element().family() == 'Discontinuous Lagrange'
+    assert normal.function_space().ufl_element().degree() == 0
+
     mesh = V.mesh()
     fdim = mesh.topology().dim() - 1
     
     if trace_mesh is None: trace_mesh = TV.mesh()
 
+    # None means all
+    if tag_data is None:
+        try:
+            marking_function = trace_mesh.marking_function
+            tag_data = (marking_function, set(marking_function.array()))
+        except AttributeError:
+            tag_data = (MeshFunction('size_t', trace_mesh, trace_mesh.topology().dim(), 0),
+                        set((0, )))
+
+    trace_mesh_subdomains, tags = tag_data
     # Init/extract entity map
-    assert get_entity_map(mesh, trace_mesh)
+    assert get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)
     # We can get it
     mapping = trace_mesh.parent_entity_map[mesh.id()][fdim]  # Map cell of TV to cells of V
 
@@ -444,13 +457,18 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
                        'jump': (lambda x: x, lambda x: -x)}[restriction]
 
     gdim = mesh.geometry().dim()
+    normal_values = normal.vector().get_local().reshape((-1, gdim))
+    # Only look at tagged cells
+    trace_cells = itertools.chain(*[map(operator.methodcaller('index'),
+                                        SubsetIterator(trace_mesh_subdomains, tag))
+                                    for tag in tags])
     # Rows
     visited_dofs = [False]*TV.dim()
     # Column values
     dof_values = np.zeros(V_basis_f.elm.space_dimension(), dtype='double')
     with petsc_serial_matrix(TV, V) as mat:
 
-        for trace_cell in range(trace_mesh.num_cells()):
+        for trace_cell in trace_cells:
             TV_dof.cell = trace_cell
             trace_dofs = Tdmap.cell_dofs(trace_cell)
 
@@ -464,12 +482,11 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
                 modifiers = (lambda x: x, )  # Do nothing
             # Search which cell has the right sign
             else:
-                signs = [None, None]
                 # Order such that '+' is first
                 t_mp = Cell(trace_mesh, trace_cell).midpoint().array()[:gdim]
                 mp = Cell(mesh, facet_cells[0]).midpoint().array()[:gdim]
 
-                sign = '+' if np.inner(mp - t_mp, normal(t_mp)) > 0 else '-'
+                sign = '+' if np.inner(t_mp - mp, normal_values[trace_cell]) > 0 else '-'
                 # Need to flip
                 if sign == '-':
                     facet_cells = facet_cells[::-1]
@@ -487,7 +504,6 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
                 TV_dof.dof = local_T
                 
                 # Two sweeps to set the values in the row
-                ADD_VALUES = False
                 for modify, cell in zip(modifiers, facet_cells):
                     V_basis_f.cell = cell
                     dofs = dmap.cell_dofs(cell)
@@ -497,16 +513,9 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
                         # Set which basis foo
                         V_basis_f.dof = local
                         dof_values[local] = modify(TV_dof.eval(V_basis_f))
-                    # Can fill the matrix now
+                    # Can fill the matrix now. The cells can share columns
                     col_indices = np.array(dofs, dtype='int32')
-
-                    if not ADD_VALUES:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.INSERT_VALUES)
-                        ADD_VALUES = True
-                        #print 'setting', dof_T, col_indices, dof_values
-                    else:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.ADD_VALUES)
-                        #print 'adding', dof_T, col_indices, dof_values
+                    mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.ADD_VALUES)
     return mat
 
 
-- 
2.43.0


From d19e22077b5ac204292beb7e04f847b7f54e017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 02/69] fix: unguarded embedding prevented fallback to
 nonconforming trace

---
 xii/assembler/trace_matrix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index 76b1300..e5f667d 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -89,7 +89,6 @@ def trace_mat_no_restrict(V, TV, trace_mesh=None, tag_data=None):
 
     trace_mesh_subdomains, tags = tag_data
     # Init/extract the mapping
-    get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)    
     try:
         assert get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)
     except (AssertionError, IndexError):
-- 
2.43.0


From edec07e599111b686d09347bdc839c4f2f1f4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 03/69] fix: embedding of missing tags is computed when trace
 is limited to tags

---
 xii/assembler/trace_matrix.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index e5f667d..cd10778 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -535,16 +535,14 @@ def get_entity_map(mesh, trace_mesh, subdomains=None, tags=None):
             parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
             trace_mesh.parent_entity_map[mesh_id] = parent_entity_map
         else:
-            needed_tags = trace_mesh.tagged_cells - tags
-            compute = True
+            # Is there a tag with cells that are not mapped yet?
+            mapped_entities = set(trace_mesh.parent_entity_map[mesh_id][trace_mesh.topology().dim()].keys())
+            needed_tags = set() if subdomains is None else set(
+                tag for tag in tags if not set(subdomains.where_equal(tag)) <= mapped_entities
+            )
             if needed_tags:
-                tagged_trace_entities = set(np.hstack([subdomains.where_equal(tag) for tag in needed_tags]))
-                mapped_trace_entities = set(trace_mesh.parent_entity_map[mesh_id][subdomains.dim()].keys())
-                compute = tagged_trace_entities <= mapped_trace_entities
-                
-            if compute:
                 info('\tMissing map for tags %r of mesh %d' % (needed_tags, mesh_id))
-                parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
+                parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, needed_tags)
                 # Add new
                 for edim in trace_mesh.parent_entity_map[mesh_id]:
                     trace_mesh.parent_entity_map[mesh_id][edim].update(parent_entity_map[edim])
-- 
2.43.0


From 0968bb2893a3888798aba6e2895c6f9a17713618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 04/69] fix: nonconforming trace respects the tags

---
 xii/assembler/nonconforming_trace_matrix.py | 13 ++++++++++---
 xii/assembler/trace_matrix.py               |  4 ++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/xii/assembler/nonconforming_trace_matrix.py b/xii/assembler/nonconforming_trace_matrix.py
index e105a53..cec73e0 100644
--- a/xii/assembler/nonconforming_trace_matrix.py
+++ b/xii/assembler/nonconforming_trace_matrix.py
@@ -11,10 +11,10 @@ import numpy as np
 import block
 
 
-def nonconforming_trace_mat(V, T):
+def nonconforming_trace_mat(V, T, tag_data=None):
     '''
     Matrix taking function f from d dim space V to g in (d-1) space T. 
-    T(f) ~ g should hold.
+    T(f) ~ g should hold (on the tagged cells of T).
     '''
     # For this to work I only make sure that function values are the same
     assert V.ufl_element().value_shape() == T.ufl_element().value_shape()
@@ -56,11 +56,18 @@ def nonconforming_trace_mat(V, T):
     X_T = T.tabulate_dof_coordinates().reshape((T.dim(), -1))
     X_V = V.tabulate_dof_coordinates().reshape((V.dim(), -1))
     
+    # None means all
+    if tag_data is None:
+        Tcells = range(T.mesh().num_cells())
+    else:
+        subdomains, tags = tag_data
+        Tcells, = np.where(np.isin(subdomains.array(), list(tags)))
+
     visited_dofs = np.zeros(T.dim(), dtype=bool)
     col_values = np.zeros(V_basis_function.elm.space_dimension(), dtype='double')
     with petsc_serial_matrix(T, V) as mat:
 
-        for Tcell in range(T.mesh().num_cells()):
+        for Tcell in Tcells:
             # Set for this cell
             T_degree_of_freedom.cell = Tcell
             
diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index cd10778..cbfab40 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -94,7 +94,7 @@ def trace_mat_no_restrict(V, TV, trace_mesh=None, tag_data=None):
     except (AssertionError, IndexError):
         warning('Using non-conforming trace')
         # So non-conforming matrix returns PETSc.Mat
-        return nonconforming_trace_mat(V, TV)
+        return nonconforming_trace_mat(V, TV, tag_data)
 
     if V.ufl_element().family() == 'HDiv Trace':
         assert V.ufl_element().degree() == 0
@@ -280,7 +280,7 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
     except (AssertionError, IndexError):
         warning('Using non-conforming trace')
         # So non-conforming matrix returns PETSc.Mat
-        return nonconforming_trace_mat(V, TV)
+        return nonconforming_trace_mat(V, TV, tag_data)
 
     if V.ufl_element().family() == 'HDiv Trace':
         assert V.ufl_element().degree() == 0
-- 
2.43.0


From 5ddba7d9f5f053c28a9c42e9b60810250c449fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 05/69] fix: disk quadrature falls back to the highest rule for
 larger degrees

---
 xii/assembler/disk_quadrature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/disk_quadrature.py b/xii/assembler/disk_quadrature.py
index 537c813..e030f53 100644
--- a/xii/assembler/disk_quadrature.py
+++ b/xii/assembler/disk_quadrature.py
@@ -12,7 +12,7 @@ def disk_quadrature(degree):
         print(f'REQUESTED EVEN DEGREE {degree-1}. ADJUSTING TO ODD {degree}')                
     if degree > 19:
         print('EXCEEDING MAXIMUM SUPPORTED DEGREE. FALLING BACK TO 19')
-        degree == 19
+        degree = 19
 
     # Templates for weight
     if degree == 1:
-- 
2.43.0


From 3ac905ce79d95a09ac35230f053ee192200edd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 06/69] fix: disk quadrature of degree 11 is not exact, use 13

---
 xii/assembler/disk_quadrature.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xii/assembler/disk_quadrature.py b/xii/assembler/disk_quadrature.py
index e030f53..1543361 100644
--- a/xii/assembler/disk_quadrature.py
+++ b/xii/assembler/disk_quadrature.py
@@ -14,6 +14,11 @@ def disk_quadrature(degree):
         print('EXCEEDING MAXIMUM SUPPORTED DEGREE. FALLING BACK TO 19')
         degree = 19
 
+    # NOTE: The tabulated rule of degree 11 does not integrate polynomials of the degree
+    if degree == 11:
+        print('NO RULE OF DEGREE 11. ADJUSTING TO 13')
+        degree = 13
+
     # Templates for weight
     if degree == 1:
         data = [(3.141592653589793, 0.000000000000000, 0.000000000000000, 1)]
@@ -31,13 +36,6 @@ def disk_quadrature(degree):
                 (0.327176874928167, 0.415187657878755, 0.000000000000000, 2),
                 (0.005591341512851, 0.834794942216211, 0.834794942216211, 3),
                 (0.190570560169519, 0.740334457173511, 0.379016937530835, 4)]
-    elif degree == 11:
-        data = [(-0.103220620849181, 0.000000000000000, 0.000000000000000, 1),
-                (0.000561120485457, 10.081713912649978, 10.081713912649978, 3),
-                (0.234185472691706, 0.329855087221954, 0.329855087221954, 3),
-                (0.123731369524117, 0.163309595229403, 0.163309595229403, 3),
-                (0.194337435615691, 0.582963679648472, 0.582963679648472, 3),
-                (0.129193960146342, 0.862551409331466, 0.191706749096887, 4)]
     elif degree == 13:
         data = [(0.156239869837333, 0.283402832348825, 0.000000000000000, 2),
                 (0.069447409266977, 0.920575474036251, 0.000000000000000, 2),
-- 
2.43.0


From 9aa3beb49feeeaefb37c54d94f3383af4c21989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 07/69] fix: SquareRim accepts the corner as a list or tuple

---
 xii/assembler/average_shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/average_shape.py b/xii/assembler/average_shape.py
index 764ae8c..3962f31 100644
--- a/xii/assembler/average_shape.py
+++ b/xii/assembler/average_shape.py
@@ -90,7 +90,7 @@ class SquareRim(BoundingSurface):
     def __init__(self, P, degree):
         if isinstance(P, (tuple, list, np.ndarray)):
             assert all(is_number(Pi) for Pi in P)
-            self.P = lambda x0, p=P: p
+            self.P = lambda x0, p=np.array(P): p
         else:
             self.P = P
 
-- 
2.43.0


From dee4d49cc8d0b7340ab2816fb8facc26c4bfd36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 08/69] fix: gradient point trace at the same point depends on
 the tangent

Memoized matrix was used for all tangents
---
 xii/assembler/gradient_point_trace_matrix.py | 29 +++++++++++++-------
 xii/assembler/point_trace_matrix.py          |  3 ++
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/xii/assembler/gradient_point_trace_matrix.py b/xii/assembler/gradient_point_trace_matrix.py
index ec91bd8..1d1e277 100644
--- a/xii/assembler/gradient_point_trace_matrix.py
+++ b/xii/assembler/gradient_point_trace_matrix.py
@@ -8,8 +8,25 @@ import ufl_legacy as ufl
 from xii.assembler.point_trace_matrix import memoize_point_trace
 
 
-@memoize_point_trace
 def gradient_point_trace_mat(V, TV, trace_mesh, data):
+    '''Operator depends on the current value of the tangent'''
+    tangent, cell = data['tangent'], data['cell']
+    mesh = V.mesh()
+
+    if isinstance(tangent, df.Constant):
+        tau = tangent.values()
+    elif isinstance(tangent, df.Function):
+        tau = tangent(Cell(mesh, cell).midpoint().array()[:mesh.geometry().dim()])
+    else:
+        tau = tangent
+    # One component evaluates to number
+    tau = tuple(np.atleast_1d(tau))
+
+    return cached_gradient_point_trace_mat(V, TV, trace_mesh, dict(data, tangent=tau))
+
+
+@memoize_point_trace
+def cached_gradient_point_trace_mat(V, TV, trace_mesh, data):
     '''
     Let u in V; u = ck phi_k then u(x0) \in TV = ck phi_k(x0). So this 
     is a 1 by dim(V) matrix where the column values are phi_k(x0).
@@ -60,14 +77,6 @@ def gradient_point_trace_matrix_DG(V, TV, x0, cell, tangent):
     
     rows, cols, values = [], [], []
     for cell in cells:
-
-        if isinstance(tangent, df.Constant):
-            tau = tangent.values()
-        elif isinstance(tangent, df.Function):
-            tau = tangent(Cell(mesh, cell).midpoint().array()[:gdim])
-        else:
-            tau = tangent
-        
         # Cell for restriction
         Vcell = Cell(mesh, cell)
         vertex_coordinates = Vcell.get_vertex_coordinates()
@@ -92,7 +101,7 @@ def gradient_point_trace_matrix_DG(V, TV, x0, cell, tangent):
         cols.extend(all_dofs)
 
         # Now we need sign of the dof
-        values.extend(np.dot(basis_values, tau).flatten())
+        values.extend(np.dot(basis_values, tangent).flatten())
 
     mat = csr_matrix((values, (rows, cols)), shape=(TV.dim(), V.dim()))        
 
diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index 5f312c8..15973d8 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -21,6 +21,9 @@ def memoize_point_trace(foo):
             key = key + tuple(data['cell'])
         except:
             key = key + (data['cell'], )            
+
+        # Only for the gradient
+        key = key + tuple(data.get('tangent', ()))
                
         if key not in cache:
             cache[key] = foo(V, TV, trace_mesh, data)
-- 
2.43.0


From e9cf9f9dd5b384b736cf700c5e57871a8b285d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:09 +0000
Subject: [PATCH 09/69] fix: patch averaging with coloring allows for patch
 shared by several dofs

Only one of the dofs got the value and it was multiplied by their number
---
 xii/assembler/patch_average_matrix.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 81994c0..db1c237 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -129,7 +129,7 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
     color_ids = vertex_f.vector().get_local()    
     # We will do the integration a group at a time
     groups = defaultdict(list)
-    for color in np.asarray(color_ids, dtype='uintp'):
+    for color in np.unique(np.asarray(color_ids, dtype='uintp')):
         if color not in coloring:
             continue
         group = coloring[color]
@@ -167,11 +167,10 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
             volumes[color] = patch_volume
             columns[color] = patch_dofs
 
-            d = np.abs(color_ids - color)
-            index = np.argmin(d)
-            assert d[index] < 1E-13
+            # Patch can be shared by several dofs
+            rows[color], = np.where(np.abs(color_ids - color) < 1E-13)
+            assert len(rows[color])
             
-            rows[color] = index
         # Integrate over group!
         df.assemble(average_form, tensor=v_dofs)
         v_dofs_arr = v_dofs.get_local()
@@ -179,9 +178,10 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
         for color in group_colors:
             patch_values = v_dofs_arr[columns[color]]/volumes[color]
             # Update matrix
-            ii.extend(rows[color]*np.ones_like(columns[color]))
-            jj.extend(columns[color])
-            values.extend(patch_values)
+            for row in rows[color]:
+                ii.extend(row*np.ones_like(columns[color]))
+                jj.extend(columns[color])
+                values.extend(patch_values)
             
         # Reset for next round
         chi_array[:] = 0
-- 
2.43.0


From aa0404c53e578031c948457169fb51e122878a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 10/69] fix: point trace of a function does not modify the
 function

Traces of the function at two points had both the value of the last one and
the function itself was treated as a point trace from then on
---
 xii/assembler/ufl_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index bd692b8..e47650f 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -133,6 +133,10 @@ def reconstruct(f):
 
     if is_test_function(f):
         return df.TestFunction(f.function_space())
+
+    # Shares the values
+    if isinstance(f, df.Function):
+        return df.Function(f.function_space(), f.vector())
     
     # Others?
     return f
-- 
2.43.0


From 0f2ffd36021386847a7caded665e67b4b5b3192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 11/69] fix: integrals are told apart also if they only differ
 by reduction

Sum of a plain integral with one where the same argument is reduced could
not be assembled for operators which do not change the mesh
---
 xii/assembler/reduced_assembler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xii/assembler/reduced_assembler.py b/xii/assembler/reduced_assembler.py
index 833ead9..855c3d5 100644
--- a/xii/assembler/reduced_assembler.py
+++ b/xii/assembler/reduced_assembler.py
@@ -61,8 +61,10 @@ class ReducedFormAssembler(object):
     
         components = []
         for integral in form.integrals():
-            # Delegate to friend
-            if integral not in reduced_integrals:
+            # Delegate to friend. NOTE: UFL's comparison does not see the
+            # attributes of arguments so inner(u, v)*dx would be found equal
+            # to inner(Mean(u), v)*dx
+            if not any(integral is other for other in reduced_integrals):
                 components.append(xii.assembler.xii_assembly.assemble(Form([integral])))
                 continue
 
-- 
2.43.0


From 41f20fea3ee2878834ddad7dd3c41cc8d2f14912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 12/69] fix: mean with a weight follows the current value of
 the weight

Memoized matrix did not reflect changes of the coefficients
---
 xii/assembler/mean_matrix.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xii/assembler/mean_matrix.py b/xii/assembler/mean_matrix.py
index 2153987..450ac19 100644
--- a/xii/assembler/mean_matrix.py
+++ b/xii/assembler/mean_matrix.py
@@ -1,6 +1,8 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
 from xii.assembler.mean_form import mean_cell, mean_space
 
+from ufl_legacy.algorithms import extract_coefficients
+from ufl_legacy.core.expr import Expr
 from numpy.polynomial.legendre import leggauss
 from dolfin import PETScMatrix, cells, Point, Cell, Function
 from collections import defaultdict
@@ -15,6 +17,11 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
+        weight = data['weight']
+        # The values of coefficients in the weight can change
+        if isinstance(weight, Expr) and extract_coefficients(weight):
+            return average_mat(V, TV, reduced_mesh, data)
+        
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
                data['weight'], data['measure'])
-- 
2.43.0


From e6720198492a294a8a6eeea06cee18721f7a713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 13/69] fix: injection by the parent cells can be assembled

Left over line used the matrix before it was defined and the result was not
a type which could be multiplied with
---
 xii/assembler/injection_matrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 19f450a..253e2ae 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -84,8 +84,6 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
             ii.extend([dof]*len(coarse_dofs))
             jj.extend(coarse_dofs)
             vals.extend(row_values)
-            # Insert
-            mat.setValues([dof], coarse_dofs, row_values, PETSc.InsertMode.INSERT_VALUES)
 
     mat = csr_matrix((vals, (ii, jj)), shape=(Vf.dim(), Vc.dim()))        
 
@@ -95,4 +93,4 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
 
     mat.assemble()
 
-    return mat
+    return PETScMatrix(mat)
-- 
2.43.0


From 4e44fe41a3f7f2224ea15c1012a4507221bb720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 14/69] fix: injection does not depend on the order of items in
 the parent map

Values were put to positions given by argsort of the keys instead of keys
---
 xii/assembler/injection_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 253e2ae..46e64ee 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -45,7 +45,7 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
     # Refine was used to create it
     keys, fine_to_coarse = list(zip(*list(fine_mesh.parent_entity_map[mesh_c.id()][tdim].items())))
     fine_to_coarse = np.array(fine_to_coarse, dtype='uintp')
-    fine_to_coarse[np.argsort(keys)] = fine_to_coarse
+    fine_to_coarse = fine_to_coarse[np.argsort(keys)]
         
     # The idea is to evaluate Vf's degrees of freedom at basis functions of Vc
     fdmap = Vf.dofmap()
-- 
2.43.0


From d46e5a080b02eb419a406c641a694693dda5c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 15/69] fix: injection with a different method is not taken
 from the cache

---
 xii/assembler/injection_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 46e64ee..7da6e5e 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -17,7 +17,8 @@ def memoize_inj(inj_mat):
     def cached_inj_mat(Vc, Vf, fine_mesh, data):
         key = ((Vc.ufl_element(), Vc.mesh().id()),
                (Vf.ufl_element(), Vf.mesh().id()),
-               fine_mesh.id())
+               fine_mesh.id(),
+               data['not_nested_method'])
                
         if key not in cache:
             cache[key] = inj_mat(Vc, Vf, fine_mesh, data)
-- 
2.43.0


From 4cb32eb4c689bb692ee4fb5522feda81c920f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:11 +0000
Subject: [PATCH 16/69] fix: transpose trace maps from the embedded mesh

Spaces were swapped so that the operator could not be assembled
---
 xii/assembler/transpose_trace_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/transpose_trace_matrix.py b/xii/assembler/transpose_trace_matrix.py
index 77ffaa6..fff129c 100644
--- a/xii/assembler/transpose_trace_matrix.py
+++ b/xii/assembler/transpose_trace_matrix.py
@@ -21,6 +21,7 @@ def memoize_trace(trace_mat):
 @memoize_trace
 def transpose_trace_mat(V, TV, reduced_mesh, tag_data):
     '''TODO'''
-    E = trace_mat_no_restrict(V, TV, trace_mesh=reduced_mesh)
+    # Trace goes from the space on the full mesh
+    E = trace_mat_no_restrict(TV, V, trace_mesh=reduced_mesh)
     T = E.transpose()
     return df.PETScMatrix(T)
-- 
2.43.0


From 1af2a2f62cf7eae7c5a7e974c41eea5609989f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 17/69] fix: trace follows the current values of normal and
 markers

---
 xii/assembler/trace_matrix.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index cbfab40..ada3606 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -19,9 +19,17 @@ def memoize_trace(trace_mat):
     '''Cached trace'''
     cache = {}
     def cached_trace_mat(V, TV, trace_mesh, data):
+        normal = data['normal']
+        # Values of the normal or the markers might have changed
+        if isinstance(normal, df.Function):
+            normal = (normal, normal.vector().get_local().tobytes())
+
+        marking_f, tags = data['tag_data']
+            
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
-               data['restriction'], data['normal'], tuple(data['tag_data'][1]))
+               data['restriction'], normal,
+               marking_f.array().tobytes(), tuple(sorted(tags)))
                
         if key not in cache:
             cache[key] = trace_mat(V, TV, trace_mesh, data)
-- 
2.43.0


From f23e53a91495157678eeb2ee7e41872a186a5cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 18/69] fix: patch average follows the current values of patch
 functions

---
 xii/assembler/patch_average_matrix.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index db1c237..39a137c 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -15,9 +15,14 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
+        vertex_f, patch_f = data['vertex_f'], data['patch_f']
+        # Their values might have changed
+        vertex_values = vertex_f.vector().get_local().tobytes()
+        patch_values = None if patch_f is None else patch_f.array().tobytes()
+
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
-               data['vertex_f'], data['patch_f'])
+               vertex_f, vertex_values, patch_f, patch_values)
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
-- 
2.43.0


From 10325e85de7b4eaae1e5205d887f07b76bdd92dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 19/69] fix: several flux averages of a function can be
 combined in a form

---
 xii/assembler/flux_average_form.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/flux_average_form.py b/xii/assembler/flux_average_form.py
index 512fee2..2a333ed 100644
--- a/xii/assembler/flux_average_form.py
+++ b/xii/assembler/flux_average_form.py
@@ -40,6 +40,17 @@ def flux_average_space(V, mesh):
     return df.FunctionSpace(mesh, 'DG', degree)
 
 
+def flux_domain_space(mesh, degree, cache={}):
+    '''
+    Scalar space for v.n. The space is reused since several averages of v 
+    in one form need to have equal arguments
+    '''
+    key = (mesh.id(), degree)
+    if key not in cache:
+        cache[key] = df.FunctionSpace(mesh, 'DG', degree)
+    return cache[key]
+
+
 def FluxAverage(v, line_mesh, shape):
     '''Average v.n over shape'''
     assert is_terminal(v)
@@ -52,7 +63,7 @@ def FluxAverage(v, line_mesh, shape):
         raise ValueError
     else:
         V_ = v.function_space()
-        V = df.FunctionSpace(V_.mesh(), 'DG', V_.ufl_element().degree())
+        V = flux_domain_space(V_.mesh(), V_.ufl_element().degree())
         # v.n is a scalar so
         v = [df.TestFunction, df.TrialFunction][v.number()](V)
 
-- 
2.43.0


From b1ccc6f2eaecb6d4d87182f36176ea4e08abbc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 20/69] fix: constant as a block of block form can be assembled

---
 xii/assembler/xii_assembly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xii/assembler/xii_assembly.py b/xii/assembler/xii_assembly.py
index 553aff5..2b6ec4a 100644
--- a/xii/assembler/xii_assembly.py
+++ b/xii/assembler/xii_assembly.py
@@ -59,6 +59,8 @@ def assemble(form):
     # We might get number
     if is_number(form): return form
 
+    if isinstance(form, df.Constant): return float(form)
+
     shape = shape_list(form)
 
     # Recurse
-- 
2.43.0


From a741798ce01fc44443c6497caa91e30a5bcf7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 21/69] fix: adjoint of forms with equal test and trial spaces
 and with any reduced arguments

---
 xii/assembler/block_form.py | 32 +++++++++++++++-----------------
 xii/assembler/ufl_utils.py  |  5 +++++
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/xii/assembler/block_form.py b/xii/assembler/block_form.py
index cb0620c..8f1db1a 100644
--- a/xii/assembler/block_form.py
+++ b/xii/assembler/block_form.py
@@ -1,4 +1,4 @@
-from xii.assembler.ufl_utils import traverse_terminals, replace as ii_replace
+from xii.assembler.ufl_utils import traverse_terminals, REDUCTION_ATTRIBUTES
 from dolfin.function.argument import Argument
 from itertools import dropwhile
 from dolfin import *
@@ -188,24 +188,22 @@ def form_adjoint(expr):
         return expr.reconstruct(integrand=form_adjoint(expr.integrand()))
 
     # For adjoint we need one trial and one test function. The idea is
-    # then exchange the two while keeping track of trace attributes
-    arguments = set([f for f in traverse_terminals(expr) if isinstance(f, Argument)])
+    # then exchange the two while keeping track of trace attributes. NOTE: this
+    # needs to be done at once since the arguments can be in the same space
+    if isinstance(expr, Argument):
+        adj_type = {0: TrialFunction, 1: TestFunction}
+        adj_arg = adj_type[expr.number()](expr.function_space())
+        # Record trace attributes
+        for attr in REDUCTION_ATTRIBUTES:
+            if hasattr(expr, attr):
+                setattr(adj_arg, attr, getattr(expr, attr))
+        return adj_arg
 
-    ii_attrs = ('trace_', 'restriction_', 'average_')
+    if not any(isinstance(t, Argument) for t in traverse_terminals(expr)):
+        return expr
 
-    adj_type = {0: TrialFunction, 1: TestFunction}
-    for arg in arguments:
-        adj_arg = adj_type[arg.number()](arg.function_space())
-        # Record trace attributes
-        attrs = []
-        for attr in ii_attrs:
-            if hasattr(arg, attr):
-                setattr(adj_arg, attr, getattr(arg, attr))
-                attrs.append(attr)
-        # Substitute
-        expr = ii_replace(expr, arg, adj_arg, attrs)
-
-    return expr
+    # Substitute
+    return type(expr)(*map(form_adjoint, expr.ufl_operands))
 
 
 def make_selfadjoint(bform):
diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index e47650f..f1caef9 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -3,6 +3,11 @@ from ufl_legacy.core.terminal import Terminal
 
 import dolfin as df
 
+# Arguments and coefficients are annotated for reduction by these
+REDUCTION_ATTRIBUTES = ('trace_', 'transpose_trace_', 'average_', 'flux_average_', 'patch_average_',
+                        'mean_', 'surface_mean_', 'dirac_', 'grad_dirac_',
+                        'restriction_', 'injection_')
+
 
 def topological_dim(thing):
     '''Extract topological dimension of thing's cell'''
-- 
2.43.0


From ca18bb3e8725c48cd3a744c90a7f5bd3eae9bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 22/69] fix: derivative with respect to coefficients reduced by
 any operator

---
 xii/nonlin/jacobian.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/xii/nonlin/jacobian.py b/xii/nonlin/jacobian.py
index 10148d6..b4f5fea 100644
--- a/xii/nonlin/jacobian.py
+++ b/xii/nonlin/jacobian.py
@@ -1,4 +1,4 @@
-from xii.assembler.ufl_utils import replace as ii_replace
+from xii.assembler.ufl_utils import replace as ii_replace, REDUCTION_ATTRIBUTES
 
 import dolfin as df
 import ufl_legacy as ufl
@@ -36,18 +36,14 @@ def block_jacobian(bf, foos):
 
 def is_restricted(x):
     '''Is x marked for restriction (in some way we support)'''
-    for rtype in ('trace_', 'average_', 'restriction_'):
-        if hasattr(x, rtype):
-            return True
-        
-    return False
+    return any(hasattr(x, rtype) for rtype in REDUCTION_ATTRIBUTES)
 
 
 def restriction_type(x):
     '''How is x restricted'''
     assert is_restricted(x)
 
-    for rtype in ('trace_', 'average_', 'restriction_'):
+    for rtype in REDUCTION_ATTRIBUTES:
         if hasattr(x, rtype):
             return rtype
 
-- 
2.43.0


From 4849f77dd8ff9abbb93cac785588bb04dbf40c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:52 +0000
Subject: [PATCH 23/69] fix: derivative of forms with expressions

---
 xii/nonlin/jacobian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/nonlin/jacobian.py b/xii/nonlin/jacobian.py
index b4f5fea..ced6e94 100644
--- a/xii/nonlin/jacobian.py
+++ b/xii/nonlin/jacobian.py
@@ -68,7 +68,7 @@ def ii_derivative(f, x):
     # NOTE: in the following I try to avoid assembly of zero forms because
     # these might not be well-defined for xii assembler. Also, assembling
     # zeros is useless
-    for fi in [c for c in f.coefficients() if not isinstance(c, df.Constant)]:
+    for fi in [c for c in f.coefficients() if isinstance(c, df.Function)]:
         # Short circuit if (partial fi)/(partial x) is 0
         if not ((fi == x) or fi.vector().id() == x.vector().id()): continue
 
-- 
2.43.0


From e273bcd72e6bdc69ee8a8264083bed78ce93800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 24/69] fix: adding a form with several integrals to block form
 returns the block form

---
 xii/assembler/block_form.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/block_form.py b/xii/assembler/block_form.py
index 8f1db1a..bf58bbe 100644
--- a/xii/assembler/block_form.py
+++ b/xii/assembler/block_form.py
@@ -93,7 +93,9 @@ class _block_form(list):
     def add(self, form):
         '''self[i][j] += form with i, j extracted'''
         if len(form.integrals()) > 1:
-            return list(map(self.add, [ufl.Form((i, )) for i in form.integrals()]))
+            for i in form.integrals():
+                self.add(ufl.Form((i, )))
+            return self
             
         # Linear
         if self.arity == 1:
-- 
2.43.0


From 680b128440f59cfdd7c2e506e62ec321f0dbe2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 25/69] fix: permutation of block form with one block

---
 xii/assembler/block_form.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xii/assembler/block_form.py b/xii/assembler/block_form.py
index bf58bbe..95fa0f0 100644
--- a/xii/assembler/block_form.py
+++ b/xii/assembler/block_form.py
@@ -239,8 +239,7 @@ def permute(bform, ordering):
     #                                       old[2] is new[1]
     #                                          [3] is new[2]    
     # Continuous range
-    step,  = set(np.diff(np.sort(ordering)))
-    assert abs(step) == 1
+    assert all(step == 1 for step in np.diff(np.sort(ordering)))
 
     # Sensible 
     assert len(ordering) == len(bform.V0)
-- 
2.43.0


From ba42295adf1125a16b2a0a4dced4aa6d5679f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:22 +0000
Subject: [PATCH 26/69] fix: transpose of composite operators and numbers in
 sums of matrices can be collapsed

---
 xii/linalg/collapse_iter.py | 20 +++----------
 xii/linalg/convert.py       | 59 ++++++++++++++++++++++++-------------
 2 files changed, 42 insertions(+), 37 deletions(-)

diff --git a/xii/linalg/collapse_iter.py b/xii/linalg/collapse_iter.py
index 176621c..5a69fcd 100644
--- a/xii/linalg/collapse_iter.py
+++ b/xii/linalg/collapse_iter.py
@@ -187,14 +187,8 @@ def collapse_add(A, B):
     if is_petsc_mat(B) and is_number(A) and abs(A) < 1E-14:
         return B    
     # Base case
-    if is_petsc_mat(A) and is_petsc_mat(B):
-        A_ = as_petsc(A)
-        B_ = as_petsc(B)
-        assert A_.size == B_.size
-        C_ = A_.copy()
-        # C = A + B
-        C_.axpy(1., B_, PETSc.Mat.Structure.DIFFERENT)
-        return df.PETScMatrix(C_)
+    if all(is_petsc_mat(X) or is_number(X) for X in (A, B)):
+        return xii_convert.axpy_matrix(A, 1., B)
     # Otherwise
     raise ValueError
 
@@ -202,14 +196,8 @@ def collapse_add(A, B):
 def collapse_sub(A, B):
     '''A - B to single matrix'''
     # Base case
-    if is_petsc_mat(A) and is_petsc_mat(B):
-        A_ = as_petsc(A)
-        B_ = as_petsc(B)
-        assert A_.size == B_.size
-        C_ = A_.copy()
-        # C = A - B
-        C_.axpy(-1., B_, PETSc.Mat.Structure.DIFFERENT)
-        return df.PETScMatrix(C_)
+    if all(is_petsc_mat(X) or is_number(X) for X in (A, B)):
+        return xii_convert.axpy_matrix(A, -1., B)
     # Recurse
     raise ValueError
 
diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 5149ff8..c6c59d2 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -137,16 +137,45 @@ def collapse(bmat):
 
 def collapse_tr(bmat):
     '''to Transpose'''
-    # Base
-    # FIXME:!!!
     A = bmat.A
+    # Multiple of identity
+    if is_number(A):
+        return A
+    # Base
     if is_petsc_mat(A):
         A_ = as_petsc(A)
         C_ = PETSc.Mat()
         A_.transpose(C_)
         return PETScMatrix(C_)
     # Recurse
-    return collapse_tr(collapse(bmat))
+    return collapse_tr(block_transpose(collapse(A)))
+
+
+def axpy_matrix(A, alpha, B):
+    '''A + alpha*B of matrices/numbers as a new object. Number is a multiple of identity'''
+    if is_number(A) and is_number(B):
+        return A + alpha*B
+
+    if is_number(B) or is_number(A):
+        number, mat = (alpha*B, A) if is_number(B) else (A, B)
+        scale = 1. if is_number(B) else alpha
+        
+        C_ = as_petsc(mat).copy()
+        C_.scale(scale)
+        if abs(number) > 0:
+            # Only makes sense for square matrix. Be careful about the diagonal
+            # which is not in the sparsity pattern
+            assert C_.size[0] == C_.size[1], C_.size
+            C_.axpy(1., as_petsc(diagonal_matrix(C_.size[0], number)),
+                    PETSc.Mat.Structure.DIFFERENT)
+        return PETScMatrix(C_)
+
+    A_ = as_petsc(A)
+    B_ = as_petsc(B)
+    assert A_.size == B_.size
+    C_ = A_.copy()
+    C_.axpy(alpha, B_, PETSc.Mat.Structure.DIFFERENT)
+    return PETScMatrix(C_)
 
 
 def collapse_add(bmat):
@@ -157,32 +186,20 @@ def collapse_add(bmat):
     if is_petsc_mat(B) and is_number(A) and abs(A) < 1E-14:
         return B    
     # Base case
-    if is_petsc_mat(A) and is_petsc_mat(B):
-        A_ = as_petsc(A)
-        B_ = as_petsc(B)
-        assert A_.size == B_.size
-        C_ = A_.copy()
-        # C = A + B
-        C_.axpy(1., B_, PETSc.Mat.Structure.DIFFERENT)
-        return PETScMatrix(C_)
+    if all(is_petsc_mat(X) or is_number(X) for X in (A, B)):
+        return axpy_matrix(A, 1., B)
     # Recurse
-    return collapse_add(collapse(A) + collapse(B))
+    return collapse_add(block_add(collapse(A), collapse(B)))
 
 
 def collapse_sub(bmat):
     '''A - B to single matrix'''
     A, B = bmat.A, bmat.B
     # Base case
-    if is_petsc_mat(A) and is_petsc_mat(B):
-        A_ = as_petsc(A)
-        B_ = as_petsc(B)
-        assert A_.size == B_.size
-        C_ = A_.copy()
-        # C = A - B
-        C_.axpy(-1., B_, PETSc.Mat.Structure.DIFFERENT)
-        return PETScMatrix(C_)
+    if all(is_petsc_mat(X) or is_number(X) for X in (A, B)):
+        return axpy_matrix(A, -1., B)
     # Recurse
-    return collapse_sub(collapse(A) - collapse(B))
+    return collapse_sub(block_sub(collapse(A), collapse(B)))
 
 
 def collapse_mul(bmat):
-- 
2.43.0


From 6efc9eb5badf492892629b5b178da2a1790b0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 27/69] fix: shared subexpressions in iterative collapse

---
 xii/linalg/collapse_iter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xii/linalg/collapse_iter.py b/xii/linalg/collapse_iter.py
index 5a69fcd..23258de 100644
--- a/xii/linalg/collapse_iter.py
+++ b/xii/linalg/collapse_iter.py
@@ -1,4 +1,5 @@
 from collections import defaultdict
+from copy import copy
 from functools import reduce
 from itertools import chain
 import operator
@@ -73,6 +74,8 @@ def expr2graph(expr):
                 terminal_labels[child].append(child_node)
                 terminal_counter += 1
             else:
+                # Each occurence of a shared subexpression needs its own node
+                if child in g: child = copy(child)
                 subexpr.append(child)
                 child_node = child
             # ... index to edge
-- 
2.43.0


From afbf3a8176c5653b071edf5b2a24a7a880e1feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 28/69] fix: nonzero number as offdiagonal block is not lost in
 conversion

---
 xii/linalg/convert.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index c6c59d2..5f4e5ea 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -45,10 +45,12 @@ def convert(bmat, algorithm='numpy'):
 
             if is_number(A):
                 # Diagonal matrices can be anything provided square
-                if i == j and row_sizes[i] == col_sizes[j]:
+                if (i == j or abs(A) > 0) and row_sizes[i] == col_sizes[j]:
                     A = diagonal_matrix(row_sizes[i], A)
                 else:
-                    # Offdiagonal can only be zero
+                    # Otherwise can only be zero
+                    if abs(A) > 0:
+                        raise ValueError('Nonzero number %g as a block of size %r' % (A, (row_sizes[i], col_sizes[j])))
                     A = zero_matrix(row_sizes[i], col_sizes[j])
                 #else:
                 #    A = 0
-- 
2.43.0


From c7b613de343c403851eb5ac7652e204b017a68d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:25 +0000
Subject: [PATCH 29/69] fix: sizes in conversion by assembly of block matrix

---
 xii/linalg/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 5f4e5ea..9183ba3 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -288,11 +288,11 @@ def block_mat_to_petsc(bmat):
         for i in range(matrix.size(0)):
             yield matrix.getrow(i)
 
-    row_sizes, col_sizes = get_sizes(bmat)
+    row_sizes, col_sizes = bmat_sizes(bmat)
     row_offsets = np.cumsum([0] + list(row_sizes))
     col_offsets = np.cumsum([0] + list(col_sizes))
 
-    with petsc_serial_matrix(row_offsets[-1], col_offsets[-1]) as mat:
+    with petsc_serial_matrix(int(row_offsets[-1]), int(col_offsets[-1])) as mat:
         row = 0
         for row_blocks in bmat.blocks:
             # Zip the row iterators of the matrices together
@@ -378,7 +378,7 @@ def get_dims(thing):
 def bmat_sizes(bmat):
     '''Return a tuple which represents sizes of (blocks of) bmat'''
     if isinstance(bmat, block_vec):
-        return tuple(map(get_dims, block_vec.blocks))
+        return tuple(map(get_dims, bmat.blocks))
 
     if isinstance(bmat, block_mat):
         vec = bmat.create_vec(0)
-- 
2.43.0


From 3457412d0cd9e64eb271dc31f89d0fef984757cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 30/69] fix: product of numbers in iterative collapse

---
 xii/linalg/collapse_iter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xii/linalg/collapse_iter.py b/xii/linalg/collapse_iter.py
index 23258de..a103de4 100644
--- a/xii/linalg/collapse_iter.py
+++ b/xii/linalg/collapse_iter.py
@@ -229,6 +229,9 @@ def collapse_mul(A, B):
         C_ = B_.copy()
         C_.scale(A)
         return df.PETScMatrix(C_)
+
+    if is_number(A) and is_number(B):
+        return A*B
     
     # Otherwise
     raise ValueError
-- 
2.43.0


From c6ea3e9e2b33b311103c63f8341652fc3c698fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 31/69] fix: dimensions of products and sums which include
 numbers

---
 xii/linalg/convert.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 9183ba3..0f72db0 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -325,41 +325,32 @@ def get_dims(thing):
     # Now let's handdle block stuff
     # Multiplication
     if isinstance(thing, block_mul):
-        A, B = thing.chain[0], thing.chain[1:]
-
-        dims_A, dims_B = get_dims(A), get_dims(B[0])
         # A number does not change
-        if dims_A is None:
-            return dims_B
-        if dims_B is None:
-            return dims_A
+        dims = [d for d in map(get_dims, thing.chain) if d is not None]
+        if not dims:
+            return None
         # Otherwise, consistency
-        if len(B) == 1:
-            assert len(dims_A) == len(dims_B) 
-            assert dims_A[1] == dims_B[0], (dims_A, dims_B) 
-            return (dims_A[0], dims_B[1])
-        else:
-            dims_B = get_dims(reduce(operator.mul, B))
-            
+        for dims_A, dims_B in zip(dims[:-1], dims[1:]):
             assert len(dims_A) == len(dims_B) 
             assert dims_A[1] == dims_B[0], (dims_A, dims_B)
-            return (dims_A[0], dims_B[1])
+
+        return (dims[0][0], dims[-1][1])
     # +, -
     if isinstance(thing, (block_add, block_sub)):
         A, B = thing.A, thing.B
-        if is_number(A):
-            return get_dims(B)
+        dims_A, dims_B = get_dims(A), get_dims(B)
+        if dims_A is None:
+            return dims_B
 
-        if is_number(B):
-            return get_dims(A)
+        if dims_B is None:
+            return dims_A
 
-        dims = get_dims(A)
-        assert dims == get_dims(B), (dims, get_dims(B))
-        return dims
+        assert dims_A == dims_B, (dims_A, dims_B)
+        return dims_A
     # T
     if isinstance(thing, block_transpose):
         dims = get_dims(thing.A)
-        return (dims[1], dims[0])
+        return dims if dims is None else (dims[1], dims[0])
     
     # Some things in cbc.block know their maE.g. InvLumpDiag...Almost last resort
     if hasattr(thing, 'A'):
-- 
2.43.0


From e4f1a3acb00cdacb31cda92b6b7f8d43c1b73ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:02 +0000
Subject: [PATCH 32/69] fix: product with a number before a sum of matrices can
 be collapsed

---
 xii/linalg/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 0f72db0..7806034 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -237,7 +237,7 @@ def collapse_mul(bmat):
             return collapse(collapse(A)*collapse(B))
     # Recurse
     else:
-        return collapse_mul(collapse(A)*collapse(reduce(operator.mul, B)))                                    
+        return collapse_mul(block_mul(collapse(A), collapse(reduce(block_mul, B))))
 
     
 # Conversion via numpy
-- 
2.43.0


From 4b6255b438165dd30d0b3d6ebade2e52b9b00819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 33/69] fix: results of collapsed subexpressions are told apart

---
 xii/linalg/collapse_iter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/linalg/collapse_iter.py b/xii/linalg/collapse_iter.py
index a103de4..378b191 100644
--- a/xii/linalg/collapse_iter.py
+++ b/xii/linalg/collapse_iter.py
@@ -255,7 +255,8 @@ def collapse(expr):
             # FIXME: this is a mock up
             # terminal = collapse_tree(sub_expr)
             mat = collapse_tree(tree, terminals)
-            node = str(mat)
+            # NOTE: same number/matrix can be the result of several trees
+            node = f'{mat}_{len(terminals)}'
             # In graph we put name ...
             graph, done = replace_tree(graph, tree, node)
             # ... and we have a lookup
-- 
2.43.0


From 55915b948a3f4d2ff7b1ef9826266559f53a0cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 34/69] fix: boundary conditions given as dictionary of values
 or with no constrained dofs

---
 xii/linalg/bc_apply.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/linalg/bc_apply.py b/xii/linalg/bc_apply.py
index ed85140..62bf4eb 100644
--- a/xii/linalg/bc_apply.py
+++ b/xii/linalg/bc_apply.py
@@ -47,7 +47,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     bcs_ = []
     for bc in bcs:
         assert isinstance(bc, (DirichletBC, list, dict)), (type(bc), )
-        if isinstance(bc, DirichletBC):
+        if isinstance(bc, (DirichletBC, dict)):
             bcs_.append([bc])
         else:
             bcs_.append(bc)
@@ -84,7 +84,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
             rows.extend(shift + np.array(list(bc.keys()), dtype='int32'))
             x_values.extend(list(bc.values()))
             
-    rows = np.hstack(rows)
+    rows = np.array(rows, dtype='int32')
     x_values = np.array(x_values)
 
     x = bb.copy()
-- 
2.43.0


From b836a7f2f019eff4ace8a31594729e5c54d15855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:01 +0000
Subject: [PATCH 35/69] fix: function applying updated boundary conditions to
 the right hand side

---
 xii/linalg/bc_apply.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/xii/linalg/bc_apply.py b/xii/linalg/bc_apply.py
index 62bf4eb..7ce16be 100644
--- a/xii/linalg/bc_apply.py
+++ b/xii/linalg/bc_apply.py
@@ -17,7 +17,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     '''
     # Specs of do nothing
     if bcs is None or not bcs or (isinstance(bcs, list) and not any(bc for bc in bcs)):
-        return A, b
+        return (A, b, lambda bb: bb) if return_apply_b else (A, b)
     
     # Allow for A, b be simple matrices. To proceed we wrap them as
     # block objects
@@ -53,7 +53,9 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
             bcs_.append(bc)
     bcs = bcs_
 
-    if not bcs or not any(bcs): return A, b
+    if not bcs or not any(bcs):
+        if has_wrapped_A: A, b = A[0][0], b[0]
+        return (A, b, lambda bb: bb) if return_apply_b else (A, b)
 
     # Obtain a monolithic matrix
     AA, bb = list(map(convert, (A, b)))
@@ -97,15 +99,17 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
         blocks.append(PETSc.IS().createStride(last-first, first, 1))
 
         
-    if return_apply_b and symmetric:
+    if return_apply_b:
         # We don't want to reassemble system and apply bcs (when they are 
         # updated) to the (new) matrix and the rhs. Matrix is expensive 
         # AND the change of bcs only effects the rhs. So what we build
         # here is a function which applies updated bcs only to rhs as
         # if by assemble_system (i.e. in a symmetric way)
         def apply_b(bb, AA=AA.copy(), dofs=rows, bcs=bcs, blocks=blocks):
+            if not isinstance(bb, block_vec):
+                return apply_b(block_vec([bb]))[0]
             # Pick up the updated values
-            values = np.array(sum((list(bc.get_boundary_values().values()) if isinstance(bc, DirichletBC) else []
+            values = np.array(sum((list((bc.get_boundary_values() if isinstance(bc, DirichletBC) else bc).values())
                                    for bcs_sub in bcs for bc in bcs_sub),
                                   []))
             # Taken from cbc.block
@@ -119,8 +123,8 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
             
             b = convert(bb)  # We cond't get view here ...
             b_vec = as_backend_type(b).vec()
-            b_vec.axpy(-1, Ac)  # Elliminate
-            b_vec.setValues(dofs, values)
+            symmetric and b_vec.axpy(-1, Ac)  # Elliminate
+            b_vec.setValues(dofs, diag_val*values)
             b_vec.assemble()
 
             bb *= 0  # ... so copy
@@ -137,7 +141,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     b = as_block(bb, blocks)
     A = as_block(AA, blocks)
     
-    if has_wrapped_A: return A[0][0], b[0]
+    if has_wrapped_A: A, b = A[0][0], b[0]
 
     if return_apply_b:
         return A, b, apply_b
@@ -173,7 +177,7 @@ def as_block(monolithic, blocks):
     if isinstance(monolithic, (GenericVector, Vector)):
         return as_block(as_backend_type(monolithic).vec(), blocks)
 
-    if isinstance(monolithic, (Matrix, )):
+    if isinstance(monolithic, (Matrix, PETScMatrix)):
         return as_block(as_backend_type(monolithic).mat(), blocks)
 
     if isinstance(monolithic, PETSc.Vec):
-- 
2.43.0


From 9c14a04a4164409cf8f63dcbecaa93e136ad7d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 36/69] fix: nullspace of PETSc operator is made of the given
 vectors

---
 xii/linalg/block_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 853d7ff..d824085 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -100,9 +100,9 @@ def ii_PETScOperator(bmat, nullspace):
     mat.setPythonContext(Foo(bmat))
 
     if nullspace is not None:
-        Z = PETSc.NullSpace(constant=True,
-                            vectors=[as_backend_type(v).vec() for v in map(convert, nullspace)],
-                            comm=PETSc.COMM_WORLD)
+        # NOTE: layout of vectors has to match that of the operator
+        vectors = [as_petsc_nest(v.copy()) if is_block else as_petsc(v.copy()) for v in nullspace]
+        Z = PETSc.NullSpace().create(vectors=vectors, comm=PETSc.COMM_WORLD)
         mat.setNullSpace(Z)
     mat.setUp()
 
-- 
2.43.0


From d7c0bb100884aca29751be98d88e764f8941156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 37/69] fix: vectorized operator on list of spaces

---
 xii/linalg/block_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index d824085..f63a809 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -197,7 +197,7 @@ class VectorizedOperator(block_base):
             size,  = set(Wi.dim() for Wi in W)
 
             # Matches A
-            n, n = get_dims(bmat)
+            n, m = get_dims(bmat)
             assert n == m == size
 
             A = block_diag_mat([bmat]*len(W))
-- 
2.43.0


From a3cad4210f9d2e1208c71885b9a19c12bd3ada2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 38/69] fix: unpacking of regrouped block vector with one block

---
 xii/linalg/block_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index f63a809..5939d23 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -404,7 +404,7 @@ class RegroupOperator(block_base):
     def transpmult(self, b):
         '''Unpack'''
         b_block = []
-        for bi in b:
+        for bi in ([b] if isinstance(b, (Vector, GenericVector)) else b):
             if isinstance(bi, (Vector, GenericVector)):
                 b_block.append(bi)
             else:
-- 
2.43.0


From f0deef475c27a0d32c594e59458f3ed6034bc556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 39/69] fix: nullspace vectors given by constants

---
 xii/linalg/block_nullspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/block_nullspace.py b/xii/linalg/block_nullspace.py
index 005b076..fefd781 100644
--- a/xii/linalg/block_nullspace.py
+++ b/xii/linalg/block_nullspace.py
@@ -26,11 +26,11 @@ class BlockNullspace(object):
         # Substite constancts
         for i, vi in enumerate(vec):
             if isinstance(vi, dolfin.Constant):
-                vec[i] = interpolate(vi, self.W[i]).vector()
+                vec[i] = dolfin.interpolate(vi, self.W[i]).vector()
             elif isinstance(vi, (float, int)):
-                vec[i] = interpolate(Constant(vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(vi), self.W[i]).vector()
             elif isinstance(vi, (list, tuple)):
-                vec[i] = interpolate(Constant(*vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(vi), self.W[i]).vector()
                 
         for b, alpha in zip(self, self.angles(vec)):
             assert abs(abs(alpha/vec.norm())-1) > 1E-10
-- 
2.43.0


From c3fd16212021df2a8556b6d185898e38b7fa68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 40/69] fix: PETSc operator without nullspace

---
 xii/linalg/block_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 5939d23..cb92c0b 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -23,7 +23,7 @@ def block_diag_mat(diagonal):
     return block_mat(blocks)
 
 
-def ii_PETScOperator(bmat, nullspace):
+def ii_PETScOperator(bmat, nullspace=None):
     '''Return an object with mult method which acts like bmat*'''
     colspace_vec, rowspace_vec = bmat.create_vec(0), bmat.create_vec(1)
 
-- 
2.43.0


From a7546164b885621e33d7b9b026f8ec81fa779cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 41/69] fix: linear operator for scipy acts on vectors with
 sizes of columns

---
 xii/linalg/krylov_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/linalg/krylov_api.py b/xii/linalg/krylov_api.py
index 35e2f68..96df575 100644
--- a/xii/linalg/krylov_api.py
+++ b/xii/linalg/krylov_api.py
@@ -16,7 +16,7 @@ class ScipyLinOp(sp.LinearOperator):
         col_sizes = [v.local_size() for v in bmat.create_vec(1)]
 
         self.shape = (sum(row_sizes), sum(col_sizes))
-        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in row_sizes])
+        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in col_sizes])
             
     def _matvec(self, xarr):
         # Fill
-- 
2.43.0


From f37b0c658d1bf90bff1cc2f85710e357ce6aa7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 42/69] fix: cbc solvers with the default number of iterations

---
 xii/linalg/krylov_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xii/linalg/krylov_api.py b/xii/linalg/krylov_api.py
index 96df575..59e19c3 100644
--- a/xii/linalg/krylov_api.py
+++ b/xii/linalg/krylov_api.py
@@ -118,8 +118,9 @@ def cbc_solve(method, AA, bb, tol, M, x0, maxiter=None, **kwargs):
                          precond=M,
                          tolerance=tol,
                          initial_guess=x0,
-                         maxiter=maxiter,
-                         relativeconv=True)
+                         relativeconv=True,
+                         # None is the default of the solver
+                         **({} if maxiter is None else {'maxiter': maxiter}))
     residuals = []
 
     x0 = AAinv*bb
-- 
2.43.0


From 4ee1ddd7fd017676b99505be28b4688c977aebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 43/69] fix: numbers as blocks are not lost in nested matrix

---
 xii/linalg/nest.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index dfdd1b9..b90c81f 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -3,7 +3,7 @@ petsc4py.init(sys.argv)
 from petsc4py import PETSc
 
 from xii.linalg.matrix_utils import as_petsc, diagonal_matrix
-from xii.linalg.convert import convert
+from xii.linalg.convert import bmat_sizes, convert
 from block.algebraic.petsc import LU, SUPERLU_LU, AMG, Elasticity
 from block.algebraic.petsc.precond import precond
 from block import block_mat, block_vec, block_mul, block_add
@@ -145,6 +145,11 @@ def nest(tensor, elim_zeros_tol=1E-15, W=None):
                 if isinstance(tensor[i][j], (int, float)):
                     # assert i != j, (i, j, tensor[i][j])
                     block = None
+                    # Otherwise multiple of identity
+                    if abs(tensor[i][j]) > 0:
+                        row_sizes, col_sizes = bmat_sizes(tensor)
+                        assert row_sizes[i] == col_sizes[j], (row_sizes[i], col_sizes[j])
+                        block = as_petsc(diagonal_matrix(row_sizes[i], tensor[i][j]))
                 else:
                     # Optimize for zeros and insert None                       
                     block = as_petsc(convert(tensor[i][j]))
-- 
2.43.0


From 432634411c4f2bd028f00f9175f31f1f0ae77975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 44/69] fix: additive preconditioner in nested preconditioner
 with newer petsc4py

---
 xii/linalg/nest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index b90c81f..1b940f5 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -44,7 +44,8 @@ def pc_mat(pc, block):
             pc_ = PETSc.PC().create()
             A = pc_mat(pc_, op)
 
-            pc.addCompositePC(pc_.getType())
+            # NOTE: it is called addCompositePCType in newer versions
+            getattr(pc, 'addCompositePC', getattr(pc, 'addCompositePCType', None))(pc_.getType())
 
             pc_sub = pc.getCompositePC(sub)            
             # Make it
-- 
2.43.0


From 12df66232ce233dd777d29fb5ebd398a834657f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 45/69] fix: orthonormalization of nullspace with repeated
 eigenvalues of the Gram matrix

---
 xii/linalg/sherman_morrison.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/xii/linalg/sherman_morrison.py b/xii/linalg/sherman_morrison.py
index 6bb8dc3..1affed5 100644
--- a/xii/linalg/sherman_morrison.py
+++ b/xii/linalg/sherman_morrison.py
@@ -17,14 +17,10 @@ def orthonormalize(basis, M, tol=1E-10):
             G[i, j] = zi.inner(M*zj)
             G[j, i] = G[i, j]
 
-    vals, vecs = np.linalg.eig(G)
-    # Symmatric matrices have real spectra so something would be wrong if
-    assert np.all(np.abs(vals.imag) < tol)
-    vals = vals.real
+    # NOTE: eigenvectors are orthonormal also if the eigenvalues are not simple
+    vals, vecs = np.linalg.eigh(G)
     # The matrix should have been an inner product so 
     assert np.all(vals > 0)
-    # Want invariant subspaces of dim 1 for each eigenvalue, so unique eigenvalues
-    assert len(np.unique(np.round(vals, int(-np.log10(tol))))) == len(vals)
 
     vecs = vecs.T 
 
-- 
2.43.0


From 20e63c4e82451706b92c0750368a4fa6dec9491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 46/69] fix: Riesz map inverts the inner product on the
 complement of the nullspace

---
 xii/linalg/sherman_morrison.py | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/xii/linalg/sherman_morrison.py b/xii/linalg/sherman_morrison.py
index 1affed5..f5b84b6 100644
--- a/xii/linalg/sherman_morrison.py
+++ b/xii/linalg/sherman_morrison.py
@@ -96,29 +96,12 @@ class L20_riesz_map(block_base):
         block_base.__init__(self)
         self.P = Projector(V, nullspace)
         self.iM = inv(self.P.M)
-        # M - (M*Z)*Z.T*M = M*P and so we want inv(P)*inv(M)
-        # inv(P) uses woodbory formula applied to id - outer(pi, di)
-        #
-        #   inv(id - outer(pi, di)) = id + outer(pi, di)/(1-sum(inner(pi, di)))
-        #
-        self.primal_basis = self.P.primal_basis
-        self.dual_basis = self.P.dual_basis
-        # The denominator 1-sum(inner(pi, di)) can be precomputed and since
-        # inner(pi, di) = 1 we have
-        self.scale = 1 - len(self.primal_basis)
+        # M - (M*Z)*Z.T*M = M*P is invertible only on the complement of
+        # the nullspace and there the inverse is P*inv(M)
 
     def matvec(self, x):
-        '''Sherman-Woodburry'''
-        y = self.iM*x  # From dual to primal
-        basis = zip(self.primal_basis, self.dual_basis)
-
-        pi, di = next(basis)
-        w = di.inner(y)*pi
-        for pi, di in basis:
-            w.axpy(di.inner(y), pi)
-        w *= (1/self.scale)
-        
-        return x + w
+        '''From dual to primal vector orthogonal to the nullspace'''
+        return self.P*(self.iM*x)
     
 # -------------------------------------------------------------------
 
@@ -152,4 +135,4 @@ if __name__ == '__main__':
     iL20 = L20_riesz_map(V, nullspace)
     y = iL20*x  # Apply some operator that is "blind" on the nullspace
     # Check inverse
-    assert norm(x-y) < 1E-13
+    assert norm(Pfh.vector()-y) < 1E-10
-- 
2.43.0


From a25973a4fae9f916693abf30d1337f213476eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 47/69] fix: collapse of operator on spaces does not depend on
 previously created vectors

---
 xii/linalg/fe_space_op.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xii/linalg/fe_space_op.py b/xii/linalg/fe_space_op.py
index 963dcbe..2e17928 100644
--- a/xii/linalg/fe_space_op.py
+++ b/xii/linalg/fe_space_op.py
@@ -26,6 +26,7 @@ class FESpaceOperator(block_base):
 
         # Otherwise compute it, but only once
         x = self.create_vec(dim=1)
+        x.zero()  # Vectors are reused
         x_values = x.get_local()
 
         columns = []
-- 
2.43.0


From e018223cc9720f6fcfbcab7cb2b081771c9a8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 48/69] fix: mean follows the current values of markers of the
 measure

---
 xii/assembler/mean_matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xii/assembler/mean_matrix.py b/xii/assembler/mean_matrix.py
index 450ac19..c0d2aba 100644
--- a/xii/assembler/mean_matrix.py
+++ b/xii/assembler/mean_matrix.py
@@ -21,6 +21,10 @@ def memoize_average(average_mat):
         # The values of coefficients in the weight can change
         if isinstance(weight, Expr) and extract_coefficients(weight):
             return average_mat(V, TV, reduced_mesh, data)
+        # As can those of the markers
+        measure = data['measure']
+        if measure is not None and measure.subdomain_data() is not None:
+            return average_mat(V, TV, reduced_mesh, data)
         
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
-- 
2.43.0


From 0578c9836f647401e3934c0ae1ee24730348c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 49/69] fix: patch average with another coloring is not taken
 from the cache

---
 xii/assembler/patch_average_matrix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 39a137c..3342293 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -19,10 +19,14 @@ def memoize_average(average_mat):
         # Their values might have changed
         vertex_values = vertex_f.vector().get_local().tobytes()
         patch_values = None if patch_f is None else patch_f.array().tobytes()
+        # The patches which are not in the coloring are left out
+        coloring = data['patch_coloring']
+        if coloring is not None:
+            coloring = tuple(sorted(coloring.items()))
 
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
-               vertex_f, vertex_values, patch_f, patch_values)
+               vertex_f, vertex_values, patch_f, patch_values, coloring)
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
-- 
2.43.0


From cc8634259f7ab3eedaf7e8ece053887b1776d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 50/69] fix: computed embedding maps vertices too

---
 xii/meshing/embedded_mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 23b4dd0..7cf0b20 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -180,8 +180,11 @@ class EmbeddedMesh(df.Mesh):
                 assert dist < tol
 
                 entity_mapping[the_cell] = entity
+                # The cell vertices are those of the entity
+                for v in c2v(the_cell):
+                    dists = np.linalg.norm(entity_x-x[v], 2, axis=1)
+                    vertex_mapping[v] = entity_vertices[np.argmin(dists)]
 
-                # FIXME: do we need vertex embedding here?
         self.parent_entity_map[parent_mesh.id()] = {0: vertex_mapping, tdim: entity_mapping}
 
         if not any(pmesh.id() == parent_mesh.id() for pmesh in self.parent_meshes):
-- 
2.43.0


From 0cdccf463a884fc9c2b79a354f1746cf0b54c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 51/69] fix: embedding map of a mesh with a single cell

---
 xii/meshing/embedded_mesh.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 7cf0b20..a031b03 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -377,10 +377,8 @@ def InnerNormal(mesh, orientation):
 def is_1_sequence(iterable):
     '''value mathces the index (-offset)'''
     steps = np.unique(np.diff(np.sort(np.fromiter(iterable, dtype='uintp'))))
-    if not len(steps) == 1:
-        return False
-
-    return steps[0] == 1
+    # NOTE: there are no steps in case of a single value
+    return np.all(steps == 1)
 
 
 def build_embedding_map(emesh, mesh, esubdomains=None, tags=None, tol=1E-14):
-- 
2.43.0


From e440a0b72f6f0081d18e80b39833ce701c0b8295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 52/69] fix: overlap mesh maps to the second mesh in the same
 way as to the first

---
 xii/meshing/subdomain_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xii/meshing/subdomain_mesh.py b/xii/meshing/subdomain_mesh.py
index 2a690a8..5e6f138 100644
--- a/xii/meshing/subdomain_mesh.py
+++ b/xii/meshing/subdomain_mesh.py
@@ -88,7 +88,7 @@ def OverlapMesh(mesh1, mesh2, tol=1E-14):
     assert not any(v is None for v in entity_map[0])
     assert not any(v is None for v in entity_map[tdim])
     # At this point we can build add the map
-    emesh.parent_entity_map[mesh2.id()] = entity_map
+    emesh.parent_entity_map[mesh2.id()] = {dim: dict(enumerate(entity_map[dim])) for dim in entity_map}
 
     return emesh
 
@@ -110,13 +110,13 @@ if __name__ == '__main__':
     map1 = mesh12.parent_entity_map[mesh1.id()][2]
     map2 = mesh12.parent_entity_map[mesh2.id()][2]
     # Cell check out
-    for c, c1, c2 in zip(df.cells(mesh12), map1, map2):
+    for c, c1, c2 in zip(df.cells(mesh12), map1.values(), map2.values()):
         assert df.near(c.midpoint().distance(df.Cell(mesh1, c1).midpoint()), 0, 1E-14)
         assert df.near(c.midpoint().distance(df.Cell(mesh2, c2).midpoint()), 0, 1E-14)
         
     # Vertices are not that important but anyways
     x1 = mesh1.coordinates(); map1 = mesh12.parent_entity_map[mesh1.id()][0]
     x2 = mesh2.coordinates(); map2 = mesh12.parent_entity_map[mesh2.id()][0]
-    for x, i1, i2 in zip(mesh12.coordinates(), map1, map2):
+    for x, i1, i2 in zip(mesh12.coordinates(), map1.values(), map2.values()):
         assert np.linalg.norm(x - x1[i1]) < 1E-13
         assert np.linalg.norm(x - x2[i2]) < 1E-13
-- 
2.43.0


From f643732591f7e7f908e53731c711bad30f78cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 53/69] fix: mortar interface has dictionary maps to cells of
 the submeshes

---
 xii/meshing/mortar_mesh.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xii/meshing/mortar_mesh.py b/xii/meshing/mortar_mesh.py
index ed94252..34ceef1 100644
--- a/xii/meshing/mortar_mesh.py
+++ b/xii/meshing/mortar_mesh.py
@@ -69,8 +69,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     subdomain_meshes = {tag: EmbeddedMesh(subdomains, tag) for tag in markers}
 
     # Alloc the entity maps for the embedded mesh
-    interface_map = {subdomain_meshes[tag].id(): [None]*interface_mesh.num_cells()
-                     for tag in markers}
+    interface_map = {subdomain_meshes[tag].id(): dict() for tag in markers}
     
     # THe maps are filled by the following idea. Using marking function
     # of interface mesh one cat get cells of that color and useing entity
@@ -83,7 +82,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     sub_mesh_map = lambda tag: dict(
         (mesh_c, submesh_c)
         for submesh_c, mesh_c in
-        enumerate(subdomain_meshes[tag].parent_entity_map[mesh.id()][tdim])
+        subdomain_meshes[tag].parent_entity_map[mesh.id()][tdim].items()
     )
 
     # Thec cell-cell connectivity of each submesh
-- 
2.43.0


From 9db89d59f598fe187c20e2beac40278aabe61b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 54/69] fix: facets of mortar submeshes are found also far from
 the origin

---
 xii/meshing/mortar_mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/mortar_mesh.py b/xii/meshing/mortar_mesh.py
index 34ceef1..ae623f9 100644
--- a/xii/meshing/mortar_mesh.py
+++ b/xii/meshing/mortar_mesh.py
@@ -98,6 +98,8 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
             cell_index = cell.index()
             # The corresponding global cell facet
             facet = c2f[cell_index]
+            # Rounding errors are relative to the size of coordinates
+            cell_tol = tol*max(1., cell.midpoint().norm())
             # The two cells in global mesh numbering
             global_cells = tagged_iface[tags][facet]
             # Let's find the facet in submesh
@@ -108,10 +110,11 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
                 
                 found = False
                 for submesh_facet in df.facets(df.Cell(submesh, local_cell)):
-                    found = df.near(cell.midpoint().distance(submesh_facet.midpoint()), 0, tol)
+                    found = df.near(cell.midpoint().distance(submesh_facet.midpoint()), 0, cell_tol)
                     if found:
                         interface_map[mesh_id][cell_index] = submesh_facet.index()
                         break
+                assert found
 
     # Collapse to list; I want list indexing
     subdomain_meshes = np.array([subdomain_meshes[m] for m in markers]) 
-- 
2.43.0


From 7438d936f7a5698875b1e23ff4ed452cd958b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 55/69] fix: walking vertices of a mesh

---
 xii/meshing/branching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xii/meshing/branching.py b/xii/meshing/branching.py
index 69dc265..5d63550 100644
--- a/xii/meshing/branching.py
+++ b/xii/meshing/branching.py
@@ -93,6 +93,8 @@ def walk_vertices(arg, tag=None, is_loop=False):
         assert arg.dim() == 1
     else:
         mesh = arg
+        # All the cells
+        arg, tag = df.MeshFunction('size_t', mesh, 1, 0), 0
         
     assert mesh.topology().dim() == 1 and mesh.geometry().dim() > 1
     # The boring cese
-- 
2.43.0


From d603993351aa56d3644fbff70c456b010b522ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 56/69] fix: branches of a mesh include each of the loops
 without terminals

---
 xii/meshing/branching.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/xii/meshing/branching.py b/xii/meshing/branching.py
index 5d63550..9b8337e 100644
--- a/xii/meshing/branching.py
+++ b/xii/meshing/branching.py
@@ -31,10 +31,6 @@ def color_branches(mesh):
     terminals = {v: set(v2c(v)) for v in range(mesh.num_vertices()) if len(v2c(v)) != 2}
     
     cell_f = df.MeshFunction('size_t', mesh, 1, 0)
-    if not terminals:
-        cell_f.set_all(1)
-        return cell_f, [], [1]
-
     def next_vertex(c, v, c2v=c2v):
         v0, v1 = c2v(c)
         return v1 if v == v0 else v0
@@ -46,7 +42,7 @@ def color_branches(mesh):
     values = cell_f.array()
     branch_colors, loop_colors, color = [], [], 0
 
-    exhausted = False
+    exhausted = not terminals
     while not exhausted:
         vertex = max(terminals, key=lambda v: terminals[v])
         vertex_cells = terminals[vertex]
@@ -81,6 +77,19 @@ def color_branches(mesh):
             # same way we arrived
             v0 in terminals and link_cell in terminals[v0] and terminals[v0].remove(link_cell)
 
+    # What is left are the loops without terminals
+    for link_cell in np.where(values == 0)[0]:
+        if values[link_cell]: continue
+
+        color += 1
+        loop_colors.append(color)
+        # Follow until we get back
+        v0 = c2v(link_cell)[0]
+        while not values[link_cell]:
+            values[link_cell] = color
+            v0 = next_vertex(link_cell, v0)
+            link_cell = next_cell(v0, link_cell)
+
     return cell_f, branch_colors, loop_colors
 
 
-- 
2.43.0


From 1d604d1176490fd95f980f54a0dd8ac1b6122df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 57/69] fix: winding number of points with respect to mesh of a
 loop

---
 xii/meshing/embedded_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index a031b03..4cd1a8c 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -4,6 +4,7 @@ from functools import reduce
 from itertools import chain, dropwhile, repeat
 from .make_mesh_cpp import make_mesh
 from .dg_utils import OrientedFacetNormal, pcws_constant
+from .branching import is_loop
 import networkx as nx
 from collections import defaultdict
 import ufl_legacy as ufl
@@ -511,7 +512,8 @@ def wind_number(mesh, points):
 
 def encloses_points(mesh, points, tol=1E-2):
     '''Point is outside/not enclosed if it wind number is > tol'''
-    return wind_number(mesh, points) > tol
+    # NOTE: sign of the number depends on the orientation of the tangent
+    return np.abs(wind_number(mesh, points)) > tol
 
 
 def NormalCurve(mesh, outside=None, tol=1E-2):
-- 
2.43.0


From 678ac064c3e2a37dc48535b797d68958e127b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 58/69] fix: tangent of a loop has the same direction in all
 the cells

---
 xii/meshing/embedded_mesh.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 4cd1a8c..83ed272 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -560,24 +560,30 @@ class TangentCurve(df.Function):
         roots = [v for v in range(mesh.num_vertices()) if len(v2c(v)) == 1]
         values = np.zeros(V.dim()).reshape((-1, gdim))
         visited = np.zeros(mesh.num_cells(), dtype=bool)        
+        g = nx.Graph()
+        g.add_edges_from(mesh.cells())
+
         if roots:
             if root is not None:
                 assert root in roots
             else:
                 root = roots.pop()
-                
-            g = nx.Graph()
-            g.add_edges_from(mesh.cells())
+            edges = nx.algorithms.traversal.dfs_edges(g, root)
+        elif is_loop(mesh):
+            # Orient each of the loops
+            edges = chain(*(nx.find_cycle(g.subgraph(nodes)) for nodes in nx.connected_components(g)))
+        else:
+            edges = ()
 
-            for (v0, v1) in nx.algorithms.traversal.dfs_edges(g, root):
-                cell, = set(v2c(v0)) & set(v2c(v1))
-                v0, v1 = X[v0], X[v1]
+        for (v0, v1) in edges:
+            cell, = set(v2c(v0)) & set(v2c(v1))
+            v0, v1 = X[v0], X[v1]
 
-                t = (v1 - v0)/np.linalg.norm(v1-v0)
-                values[cell, :] = t
-                visited[cell] = True
+            t = (v1 - v0)/np.linalg.norm(v1-v0)
+            values[cell, :] = t
+            visited[cell] = True
 
-        np.any(visited) and print('Found unvisited edges in tangent curve computation')
+        np.all(visited) or print('Found unvisited edges in tangent curve computation')
                 
         for cell in np.where(~visited)[0]:
             v0, v1 = c2v(cell)
-- 
2.43.0


From e36501718846c602a561cbfc89d1c6f69f3e7da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 59/69] fix: normal of a loop does not depend on numbering of
 the mesh

---
 xii/meshing/embedded_mesh.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 83ed272..43147f5 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -525,13 +525,15 @@ def NormalCurve(mesh, outside=None, tol=1E-2):
     assert outside.shape == (2, )
     
     n,  = wind_number(mesh, np.array([outside]))
-    if abs(n) < tol:
-        # Orient with
-        R = df.Constant(((0, 1), (-1, 0)))
-    else:
-        R = df.Constant(((0, -1), (1, 0)))
-        
+
     t = TangentCurve(mesh)
+    # Clockwise rotation of the tangent points out only if the loop is
+    # followed counter clockwise
+    R = np.array([[0, 1], [-1, 0]])
+    area = df.assemble(df.inner(df.SpatialCoordinate(mesh), df.dot(df.Constant(R), t))*df.dx)
+    # Orient with
+    R = df.Constant(R if (abs(n) < tol) == (area > 0) else -R)
+
     V = t.function_space()
     v = df.TestFunction(V)
 
-- 
2.43.0


From dd4fcc0337aa5423537865443de50c5701703676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 60/69] fix: circumcenters of curves in 3d

---
 xii/meshing/cell_centers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 87fec56..0f2eee1 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -73,12 +73,13 @@ public:
     std::vector<double> coordinates;
     cell.get_vertex_coordinates(coordinates);
 
-    Eigen::Vector2d v0(coordinates[0], coordinates[1], coordinates[2]);
-    Eigen::Vector2d v1(coordinates[3], coordinates[4], coordinates[5]);
-    Eigen::Vector2d y = 0.5*(v0 + v1);
+    Eigen::Vector3d v0(coordinates[0], coordinates[1], coordinates[2]);
+    Eigen::Vector3d v1(coordinates[3], coordinates[4], coordinates[5]);
+    Eigen::Vector3d y = 0.5*(v0 + v1);
     // Just midpoint
     values[0] = y[0];
     values[1] = y[1];
+    values[2] = y[2];
   }
 
   std::shared_ptr<dolfin::Mesh> mesh;
-- 
2.43.0


From c3b6955186e5606a93f431aa5caa5ae8f4744130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 61/69] fix: CentroidDistance2 is the distance through the
 center of the facet

---
 xii/meshing/cell_centers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 0f2eee1..2dabf8c 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -457,7 +457,7 @@ def CentroidVector(mesh):
 
 def CentroidDistance2(mesh):
     '''Magnitude of CentroidVector as a DLT function'''
-    return _CenterDistance(mesh, Center=CentroidVector2)
+    return _CenterDistance2(mesh, Center=CentroidVector2)
 
                            
 def CentroidVector2(mesh):
-- 
2.43.0


From 9cfd6800e43acc8f71164110e452f3dff124962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 62/69] fix: distance of circumcenters for cells with centers
 at the origin

---
 xii/meshing/cell_centers.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 2dabf8c..b1163d9 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -392,19 +392,15 @@ def _CenterVectors(mesh, Center):
     df.assemble((1/fK('+'))*df.inner(cell_centers('+'), l('+'))*df.dS +
                 (1/fK)*df.inner(cell_centers, l)*df.ds,
                 tensor=plus.vector())
-    assert plus.vector().norm('linf') > 0
     
     minus = df.Function(L)    
     df.assemble((1/fK('-'))*df.inner(cell_centers('-'), l('-'))*df.dS +
                 (1/fK)*df.inner(cell_centers, l)*df.ds,
                 tensor=minus.vector())
-    assert minus.vector().norm('linf') > 0
     
     cc = df.Function(LL)
     df.assign(cc, [plus, minus])
 
-    assert cc.vector().norm('linf') > 0    
-
     return cc
 
 # --------------------------------------------------------------------
-- 
2.43.0


From c7d7e33d11d26efa4c261f99d84a3f72a47e1af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 63/69] fix: branches of line mesh without interior nodes

---
 xii/meshing/generation.py | 2 --
 xii/meshing/line_mesh.py  | 2 --
 2 files changed, 4 deletions(-)

diff --git a/xii/meshing/generation.py b/xii/meshing/generation.py
index 8b82948..6d26b10 100644
--- a/xii/meshing/generation.py
+++ b/xii/meshing/generation.py
@@ -36,8 +36,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
diff --git a/xii/meshing/line_mesh.py b/xii/meshing/line_mesh.py
index 6350b08..dfa9061 100644
--- a/xii/meshing/line_mesh.py
+++ b/xii/meshing/line_mesh.py
@@ -36,8 +36,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
-- 
2.43.0


From 1e32f7ee7381d9a4fe9c71ef64cb61df1db62089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 64/69] fix: first branch of line mesh is a loop

---
 xii/meshing/generation.py | 4 ++++
 xii/meshing/line_mesh.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/xii/meshing/generation.py b/xii/meshing/generation.py
index 6d26b10..0ed1863 100644
--- a/xii/meshing/generation.py
+++ b/xii/meshing/generation.py
@@ -15,6 +15,10 @@ def line_mesh(branches, tol=1E-13):
     ext_nodes = branch[[0, -1]]
 
     ext_bounds = [(0, 1)]
+    # It can be closed
+    if np.linalg.norm(ext_nodes[0] - ext_nodes[1], 2) < tol:
+        ext_nodes, ext_bounds = ext_nodes[:1], [(0, 0)]
+
     # For the other ones need to check collisions
     for branch in it_branches:
         endpoints = branch[[0, -1]]
diff --git a/xii/meshing/line_mesh.py b/xii/meshing/line_mesh.py
index dfa9061..c43d0b1 100644
--- a/xii/meshing/line_mesh.py
+++ b/xii/meshing/line_mesh.py
@@ -15,6 +15,10 @@ def line_mesh(branches, tol=1E-13):
     ext_nodes = branch[[0, -1]]
 
     ext_bounds = [(0, 1)]
+    # It can be closed
+    if np.linalg.norm(ext_nodes[0] - ext_nodes[1], 2) < tol:
+        ext_nodes, ext_bounds = ext_nodes[:1], [(0, 0)]
+
     # For the other ones need to check collisions
     for branch in it_branches:
         endpoints = branch[[0, -1]]
-- 
2.43.0


From 174160edf17bf0c58c98ebb0ccccd349f508d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 65/69] fix: union of more than two meshes

---
 xii/meshing/union_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index 2042e07..3ea50f1 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -13,8 +13,8 @@ def union_mesh(meshes, tol=1E-12):
         return meshes[0]
     # Recurse
     if num_meshes > 2:
-        return union_mesh([union_mesh(meshes[:num_meshes/2+1]),
-                           union_mesh(meshes[num_meshes/2+1:])])
+        return union_mesh([union_mesh(meshes[:num_meshes//2+1]),
+                           union_mesh(meshes[num_meshes//2+1:])])
 
     gdim, = set(m.geometry().dim() for m in meshes)
     tdim, = set(m.topology().dim() for m in meshes)
-- 
2.43.0


From c63f8d5da70a07e213ed0159c506e61ab11cd9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 66/69] fix: union does not change the meshes it is made of

---
 xii/meshing/union_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index 3ea50f1..2d03c15 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -73,7 +73,7 @@ def union_mesh(meshes, tol=1E-12):
     if not hasattr(mesh0, 'leafs'):
         merged_mesh.leafs = [(mesh0.id(), lg0)]
     else:
-        merged_mesh.leafs = mesh0.leafs
+        merged_mesh.leafs = list(mesh0.leafs)
         
     if not hasattr(mesh1, 'leafs'):
         merged_mesh.leafs.append([mesh1.id(), lg1])
-- 
2.43.0


From 294c9d02e39d36e33bc6fe9789709ef4e2338c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 67/69] fix: union with mesh whose all boundary vertices are
 shared

---
 xii/meshing/union_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index 2d03c15..db5657a 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -34,7 +34,7 @@ def union_mesh(meshes, tol=1E-12):
 
     x1 = x1[bdry_vertices1]
     shared_vertices = {}
-    while bdry_vertices0:
+    while bdry_vertices0 and bdry_vertices1:
         i = bdry_vertices0.pop()
         x = x0[i]
         # Try to match it
-- 
2.43.0


From f070a2c5338ee47ce8be0edc9b38000bb6cc1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 68/69] fix: tetrahedra in gmsh data are cells of a mesh with
 dimension 3

---
 xii/meshing/gmsh_interopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/meshing/gmsh_interopt.py b/xii/meshing/gmsh_interopt.py
index cbc1aca..f2439f0 100644
--- a/xii/meshing/gmsh_interopt.py
+++ b/xii/meshing/gmsh_interopt.py
@@ -97,7 +97,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
     # We only support lines, triangles and tets
     assert set(element_data.keys()) <= set((1, 2, 4))
 
-    elm_tdim = {1: 1, 2: 2, 4: 2}    
+    elm_tdim = {1: 1, 2: 2, 4: 3}    
     # The idea is first build the mesh (and cell function) and later
     # descent over entities to tag them
     cell_elm = max(list(element_data.keys()), key=lambda elm: elm_tdim[elm])  # 
@@ -114,7 +114,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
 
     print(('Mesh has {} cells.'.format(len(cells_as_nodes))))
     # Cell-node-connectivity is enough to build mesh
-    elm_name = {1: 'interval', 2: 'triangle', 4: 'tetrahedron'}
+    elm_name = {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}
     cell_tdim = elm_tdim[cell_elm]
     # Since gmsh has nodes always as 3d we infer gdim from whether last
     # axis is 0
-- 
2.43.0


From 977c77c4932754833c52a2e91bb668abcd0b1bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 69/69] fix: numbering of vertices of the mesh from gmsh data

---
 xii/meshing/gmsh_interopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/meshing/gmsh_interopt.py b/xii/meshing/gmsh_interopt.py
index f2439f0..f1ac55a 100644
--- a/xii/meshing/gmsh_interopt.py
+++ b/xii/meshing/gmsh_interopt.py
@@ -107,7 +107,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
     vtx_idx = np.unique(cells_as_nodes)
     mesh_vertices = nodes[vtx_idx]  # Now we have our numbering
     # Want to make from old to new to redefine cells
-    node_map = {old: new for old, new in enumerate(vtx_idx)}
+    node_map = {old: new for new, old in enumerate(vtx_idx)}
 
     cells_as_nodes = np.fromiter((node_map[c] for c in cells_as_nodes.ravel()),
                                  dtype=cells_as_nodes.dtype).reshape(cells_as_nodes.shape)
-- 
2.43.0

