'''
The one place where properties are described. Writes properties.jsonl and MANIFEST.json:
    python3 tools/props.py
A property is claimed once checks/<ID>.py exists.
'''
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, quantifier, why, files, mechanism, over=('inputs',), observe=(), note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), quantifier=quantifier, why=why,
                  files=files, mechanism=mechanism, observe=list(observe), note=note, na=na))


# Assembly of reduced forms ------------------------------------------------------------------------
prop('A01', 'Trace on a mesh embedded in facets is the restriction of the function',
     'Integrating an expression containing the trace of a finite element function over a mesh made of facets of the volume mesh '
     'gives the same result as evaluating the function at the embedded points inside a volume cell connected to the facet. '
     'This holds for continuous, discontinuous, H(div)/H(curl), vector, tensor and mixed elements, for facet (trace) spaces, and '
     'equally when the traced argument is a test function, a trial function or a coefficient. '
     'A trace limited to tags contributes only on the embedded cells carrying these tags.',
     'all volume meshes (2d, 3d, any numbering and geometry), all marked facet sets, all elements, all coefficient vectors',
     'avg_test/trace_3d/vector_trace compare a few structured meshes with CG/RT elements of one function each; element families, '
     'cell orderings, local refinement, partial tags are not exercised.',
     ['xii/assembler/trace_matrix.py', 'xii/assembler/trace_form.py', 'xii/assembler/trace_assembly.py', 'xii/assembler/fem_eval.py',
      'xii/assembler/reduced_assembler.py', 'xii/assembler/xii_assembly.py'],
     [('element-wise evaluation of basis functions at the dofs of the trace space', 'xii/assembler/trace_matrix.py'),
      ('translation between reduced arguments and arguments of the trace space', 'xii/assembler/reduced_assembler.py')],
     observe=['ii_assemble'], note='2d/3d, 22 elements, tags, linear/bilinear/nonlinear functionals against evaluation in the neighbouring cell')

prop('A02', 'One sided traces, averages and jumps on interior facets are consistent',
     'On interior facets the + trace takes the value from the cell which the normal prescribed on the embedded mesh points out of, '
     'the - trace takes the value of the other cell, the average is half of their sum and the jump is the + value minus the - value. '
     'On facets of the boundary the average and jump reduce to the value of the only cell. '
     'Reversing the normal swaps the two sides and flips the sign of the jump.',
     'all volume meshes, all marked facet sets, all normal fields, discontinuous functions of any element',
     'No test of the suite assembles averages or jumps and the sided traces are only used on a straight line with one normal.',
     ['xii/assembler/trace_matrix.py', 'xii/assembler/trace_form.py'],
     [('one sided trace matrix', 'xii/assembler/trace_matrix.py'), ('avg/jump trace matrix', 'xii/assembler/trace_matrix.py')],
     observe=['ii_assemble', 'Trace(u, mesh, restriction, normal)'], note='generated meshes and normals against evaluation in the cell on the prescribed side')

prop('A03', 'Trace on an unrelated immersed mesh evaluates the function at its points',
     'When a mesh immersed in the volume mesh is not made of its facets, the trace onto it is the function of the trace space whose '
     'nodal values are the point values of the traced function, for any position, orientation and resolution of the immersed mesh. '
     'If the volume function is a polynomial that the trace space represents then the integrals with the trace are exact.',
     'all volume meshes, immersed curves and surfaces, elements, coefficients',
     'No stable test covers it; the example tests which do (coarse_trace, nonconform_trace) cover one configuration and need missing packages or fail.',
     ['xii/assembler/nonconforming_trace_matrix.py', 'xii/assembler/trace_matrix.py'],
     [('bounding box search for the cell and evaluation of the basis functions there', 'xii/assembler/nonconforming_trace_matrix.py')],
     observe=['ii_assemble'], note='random immersed curves/surfaces/coarser boundary meshes against point evaluation')

prop('A04', 'Reduced test, trial and coefficient functions give consistent tensors',
     'For every reduction operator (trace, its transpose, average, flux average, point trace, gradient point trace, patch average, mean, surface mean, '
     'restriction, injection) assembling a form with the reduced trial function and applying the matrix to a vector gives the '
     'vector assembled with the reduced coefficient; exchanging test and trial function transposes the matrix; and assembly is '
     'additive over integrals and homogeneous in coefficients.',
     'all operators, volume/embedded meshes, spaces, coefficient vectors, sums of integrals',
     'Tests assemble one of the three roles per operator with fixed functions.',
     ['xii/assembler/reduced_assembler.py', 'xii/assembler/trace_assembly.py', 'xii/assembler/average_assembly.py',
      'xii/assembler/restriction_assembly.py', 'xii/assembler/injection_assembly.py', 'xii/assembler/patch_average_assembly.py',
      'xii/assembler/point_trace_assembly.py', 'xii/assembler/mean_assembly.py', 'xii/assembler/transpose_trace_assembly.py'],
     [('replacing the reduced argument by one on the reduced space, composing with the reduction matrix', 'xii/assembler/reduced_assembler.py')],
     observe=['ii_assemble'], note='metamorphic relations over all operators')

prop('A05', 'Block assembly equals assembling block by block',
     'Assembling a nested list of forms gives a block tensor of the same layout whose entries are the entries assembled one at a time; plain UFL forms assemble to what dolfin gives, numbers stay as they are and zero forms yield zero blocks. A sum of integrals, with or without reduced arguments, assembles to the sum of the tensors of its integrals. Constants are numbers; ragged layouts are rejected.',
     'all block layouts, forms with and without reduced arguments, numbers and empty blocks',
     'Tests use fixed 2x2 or 3x3 systems and look at the final error of the solve at most.',
     ['xii/assembler/xii_assembly.py', 'xii/assembler/block_form.py'],
     [('recursive assembly of block containers, falling through the list of assemblers', 'xii/assembler/xii_assembly.py')],
     over=('inputs', 'programs'), observe=['ii_assemble'], note='generated block systems of forms compared with entry-wise assembly')

prop('A06', 'Assembly does not depend on what has been assembled before',
     'The tensor of a form with reduced arguments depends only on the form, the meshes, the markers and the current values of coefficients: any sequence of other assemblies done earlier in the process, including ones with the same volume and embedded mesh but other tags, sides, normals, shapes, points, radii or quadrature degrees leaves the result unchanged. Repeating an assembly gives the same tensor and modifying an earlier result does not affect later ones. This covers changed values of normals, markers (also of the measure), weights, patch functions, colourings and tangents.',
     'all sequences of assemblies with shared meshes, spaces, operators',
     'Tests assemble each operator once per mesh in a fresh process, so the process-wide caches of reduction matrices are never hit with differing data.',
     ['xii/assembler/trace_matrix.py', 'xii/assembler/average_matrix.py', 'xii/assembler/injection_matrix.py', 'xii/assembler/patch_average_matrix.py', 'xii/assembler/point_trace_matrix.py', 'xii/assembler/restriction_matrix.py', 'xii/assembler/flux_average_matrix.py'],
     [('memoization of the reduction matrices keyed by ids of meshes and operator data', 'xii/assembler/trace_matrix.py')],
     over=('histories',), observe=['ii_assemble'], note='stateful sequences of assemblies compared to the same assembly in a pristine state (caches cleared, fresh objects)')

prop('A07', 'Shape quadratures integrate polynomials exactly over the shape',
     'For each averaging shape (circle, disk, square, square perimeter, ...) placed at any point with any normal and any radius (constant or position '
     'dependent), the quadrature of degree d has weights which sum to the measure of the shape and integrates every polynomial of total degree at most d over the shape exactly '
     '(to quadrature accuracy), with all points in the plane of the shape. The disk rules are available for each supported degree up to 20.',
     'all shapes, positions, orientations, radii, degrees, polynomials',
     'Only disk rules of a few degrees are looked at in a script outside of the stable suite.',
     ['xii/assembler/average_shape.py', 'xii/assembler/disk_quadrature.py'],
     [('tables of disk quadrature', 'xii/assembler/disk_quadrature.py'), ('local frames of shapes', 'xii/assembler/average_shape.py')],
     observe=['Disk', 'Circle', 'Square', 'SquareRim'], note='polynomial exactness against closed form moments in rotated frames')

prop('A08', 'Average computes the mean over the shape around each point of the curve',
     'The average of a 3d function onto a curve has at each point of the curve the mean of the function over the shape centred at that point with normal '
     'along the curve; constants are reproduced and polynomials up to the quadrature degree are averaged exactly. '
     'With no shape the average is the 3d-1d trace, i.e. the point value, and vector valued functions are averaged componentwise.',
     'all 3d meshes and curves inside (also not following edges), shapes fitting in the domain, radii, degrees, polynomial functions',
     'avg_test checks one polynomial per shape on one cube/line pair.',
     ['xii/assembler/average_matrix.py', 'xii/assembler/average_form.py', 'xii/assembler/average_shape.py', 'xii/assembler/average_assembly.py'],
     [('average matrix assembled by rows from quadrature around the dof coordinate', 'xii/assembler/average_matrix.py')],
     observe=['ii_assemble', 'Average'], note='random meshes/curves/shapes/polynomials against closed form averages')

prop('A09', 'Flux average computes the mean flux through the shape boundary',
     'The flux average of a vector valued 3d function v (test or trial function) onto a curve has at each point the mean of v.n over the circle centred at the point '
     'with normal along the curve, where n is the outward unit normal of the circle in its plane; it is zero for fields along the curve and constant fields, and exact for polynomials up to the quadrature degree '
     'on generated meshes, curves and radii.',
     'all 3d meshes and curves, radii, degrees, polynomial vector functions',
     'There is no test for this operator in the stable suite.',
     ['xii/assembler/flux_average_matrix.py', 'xii/assembler/flux_average_form.py', 'xii/assembler/flux_average_assembly.py', 'xii/assembler/average_shape.py'],
     [('flux average matrix', 'xii/assembler/flux_average_matrix.py')],
     observe=['ii_assemble', 'FluxAverage'], note='random meshes/curves/polynomials against closed form')

prop('A10', 'Point traces evaluate the function and its gradient at the point',
     'The point trace of a scalar (discontinuous Lagrange) function on a curve (mesh of intervals in 1, 2 or 3 dimensions) at a vertex of a given cell is the value of the function of that cell at that vertex; '
     'the gradient point trace is the derivative of the function of that cell in the direction of the given tangent. Assembly with point traces leaves the function as it was.',
     'all curve meshes, vertices, cells, elements, coefficients, tangents',
     'test_point_trace/test_gradient_point_trace use one point on a unit interval mesh.',
     ['xii/assembler/point_trace_matrix.py', 'xii/assembler/point_trace_form.py', 'xii/assembler/point_trace_assembly.py', 'xii/assembler/gradient_point_trace_matrix.py', 'xii/assembler/gradient_point_trace_form.py', 'xii/assembler/gradient_point_trace_assembly.py'],
     [('evaluation of basis functions (derivatives) at the point', 'xii/assembler/point_trace_matrix.py')],
     observe=['ii_assemble', 'PointTrace', 'GradientPointTrace'], note='random meshes, points, dof values against evaluation in the cell')

prop('A11', 'Patch average computes the volume weighted mean over the patch',
     'The patch average of a function gives for each dof of the target space the integral of the function over its patch, i.e. the cells carrying the tag which is the value of the patch function '
     'in that dof, divided by the volume of the patch; dofs with no patch (value zero) get zero. Constants are preserved. Processing the patches in groups (colouring) gives the same result. '
     'Without a patch function the nodal value is taken.',
     'all meshes, patches, colourings, elements, coefficients',
     'No stable test.',
     ['xii/assembler/patch_average_matrix.py', 'xii/assembler/patch_average_form.py', 'xii/assembler/patch_average_assembly.py'],
     [('patch average matrix', 'xii/assembler/patch_average_matrix.py')],
     observe=['ii_assemble', 'PatchAverage'], note='random meshes and colourings against direct integration')

prop('A12', 'Mean operators integrate over the domain or surface',
     'The mean of a scalar function maps it to the constant on the target mesh given by the integral of the function, times the weight if one is given, with respect to the given measure '
     '(by default over the whole mesh; it is not divided by the volume), and the surface mean to the constant given by the integral over the marked facets divided by their area. '
     'The current values of the weight are used in each assembly.',
     'all meshes, facet/cell markings, weights, elements, coefficients',
     'Stable tests use one function on the unit square.',
     ['xii/assembler/mean_form.py', 'xii/assembler/mean_assembly.py', 'xii/assembler/mean_matrix.py', 'xii/assembler/surface_mean_form.py',
      'xii/assembler/surface_mean_assembly.py', 'xii/assembler/surface_mean_matrix.py'],
     [('vector of the integral', 'xii/assembler/mean_matrix.py')],
     observe=['ii_assemble', 'Mean'], note='random meshes/functions/weights against direct integration')

prop('A13', 'Restriction to a mesh made of cells of another mesh is exact',
     'The restriction of a function to a mesh which consists of cells of its mesh (subdomain, overlap) is the same function there: its values agree at every point of the submesh for Lagrange, discontinuous Lagrange, Crouzeix-Raviart, H(div) and H(curl) elements (also vector and mixed), and forms with the restricted argument equal integrals over the marked cells.',
     'all meshes, cell markings, elements, coefficients',
     'The restriction tests of the repository are not in the stable suite and use one subdomain of a square.',
     ['xii/assembler/restriction_matrix.py', 'xii/assembler/restriction_form.py', 'xii/meshing/subdomain_mesh.py'],
     [('dof matching through the parent cells', 'xii/assembler/restriction_matrix.py')],
     over=('inputs',), observe=['ii_assemble', 'Restriction'], note='random meshes/markings/elements against evaluation and integrals over marked cells')

prop('A14', 'Injection to a refined mesh reproduces the coarse function',
     'For a mesh obtained by direct refinement of another mesh the injection of a coarse function into the fine mesh space of the same element is exactly the same function, regardless of whether the refinement was uniform or local. Where the fine space does not contain the function (elements which are not nested, meshes which are not refinements) the injection by interpolation (of Lagrange functions) is the function with the values of the coarse one at the nodes of the fine space.',
     'all meshes, refinement histories, elements, coefficients, methods',
     'test_injection covers a few uniformly refined unit squares with a polynomial.',
     ['xii/assembler/injection_matrix.py', 'xii/assembler/injection_form.py', 'xii/assembler/interpolation_matrix.py'],
     [('walk through the hierarchy from fine to coarse cells', 'xii/assembler/injection_matrix.py')],
     over=('inputs',), observe=['ii_assemble', 'Injection'], note='random refinements/elements/dof values against pointwise evaluation')

prop('A15', 'Block forms: algebra on containers of forms acts entry by entry',
     'Sums, scalings, transposition/adjoint, permutation of blocks and extraction on block forms commute with assembly, that is assembling the transformed container gives the transformed block matrix; block linear and bilinear containers keep their sizes and reject inconsistent layouts.',
     'all block layouts, permutations, forms',
     'No stable test.',
     ['xii/assembler/block_form.py', 'xii/assembler/ufl_utils.py'],
     [('block_form containers', 'xii/assembler/block_form.py')],
     over=('inputs', 'programs'), observe=['block_form', 'ii_assemble'], note='generated containers; commuting diagrams with assembly')

prop('A16', 'Transpose trace extends by the nodes of the surface',
     'The transpose trace of a continuous Lagrange function on a mesh made of boundary facets is the Lagrange function on the volume mesh which has its values at the nodes on the surface and vanishes at all other nodes; '
     'its matrix is the transpose of the matrix of nodal trace.',
     'all volume meshes, boundary facet sets, Lagrange elements, coefficients',
     'No stable test.',
     ['xii/assembler/transpose_trace_form.py', 'xii/assembler/transpose_trace_assembly.py', 'xii/assembler/transpose_trace_matrix.py'],
     [('transpose trace matrix', 'xii/assembler/transpose_trace_matrix.py')],
     observe=['ii_assemble', 'TransposeTrace'], note='random meshes/functions against nodal extension')

# Nonlinear -----------------------------------------------------------------------------------------
prop('N01', 'Derivatives of (block) residuals are their Gateaux derivatives',
     'The Jacobian of a block residual, including residuals with reduced (traced, averaged) coefficients, assembles to the matrix whose product with any direction is the directional derivative of the assembled residual, with the block layout rows = residuals, columns = unknowns. Coefficients may be reduced by any of the operators; layouts which do not match are rejected.',
     'all block layouts, nonlinear expressions, states and directions',
     'No stable test.',
     ['xii/nonlin/jacobian.py', 'xii/assembler/ufl_utils.py'],
     [('ii_derivative and block_jacobian', 'xii/nonlin/jacobian.py')],
     over=('inputs', 'programs'), observe=['ii_derivative', 'block_jacobian'], note='generated polynomial residuals against complex-free high order finite differences (exact for polynomials)')
# Linear algebra ----------------------------------------------------------------------------------
prop('L01', 'Converting block operator expressions to matrices preserves the operator',
     'Evaluating an expression of matrices, transposes, products, sums, scalings, zero and identity blocks and nested block matrices into a concrete matrix gives a matrix with the same action on every vector as the expression, also when only some of the blocks are collapsed, for all evaluation strategies offered, and without changing the operands. Converting a vector or a nested vector concatenates its blocks in order. Numbers are multiples of identity; an expression which has no matrix (nonzero numbers in rectangular blocks, nested block matrices) is rejected rather than converted to something else.',
     'all well formed operator expressions, shapes, values, algorithms',
     'Tests never convert anything but the simplest products.',
     ['xii/linalg/convert.py', 'xii/linalg/collapse_iter.py'],
     [('recursive collapse', 'xii/linalg/convert.py'), ('iterative collapse', 'xii/linalg/collapse_iter.py')],
     over=('programs', 'inputs'), observe=['ii_convert'], note='random expression trees against dense arithmetic')

prop('L02', 'Boundary conditions on block systems',
     'Applying Dirichlet conditions to a block system yields the system where the constrained rows are identity rows (with the given diagonal), the right hand side takes the boundary values and (in the symmetric variant) constrained columns are eliminated to the right hand side, so that the solution satisfies the conditions and the remaining equations of the original system. The last of several conditions for one degree of freedom wins.',
     'all block systems, sets of constraints, values',
     'Stable tests do not apply conditions to block systems.',
     ['xii/linalg/bc_apply.py'],
     [('apply_bc', 'xii/linalg/bc_apply.py')],
     over=('inputs',), observe=['apply_bc'], note='random block systems against dense row/column elimination')

prop('L03', 'Block functions, reduction and regrouping of blocks',
     'Block functions hold their components and their vectors share storage with the components; reductions and regroupings of blocks are the corresponding selections and permutations of block rows: they preserve the entries and, where both directions exist, are inverse to each other.',
     'all block layouts and values',
     'No stable test.',
     ['xii/linalg/function.py', 'xii/linalg/block_utils.py'],
     [('ii_Function', 'xii/linalg/function.py'), ('ReductionOperator, RegroupOperator', 'xii/linalg/block_utils.py')],
     over=('inputs', 'histories'), observe=['ii_Function', 'ReductionOperator', 'RegroupOperator'], note='random layouts vs numpy')

prop('L04', 'Block nullspaces are orthonormal and projections remove them',
     'A nullspace built from vectors of a block space has an orthonormal basis of the span of these vectors, linearly dependent input is rejected, and orthogonalization of any block vector leaves '
     'the component orthogonal to the basis, with complementary projections summing to the identity.',
     'all sets of vectors', 'No stable test.',
     ['xii/linalg/block_nullspace.py'], [('Gram-Schmidt', 'xii/linalg/block_nullspace.py')],
     observe=['BlockNullspace'], note='random bases vs numpy QR')

prop('L05', 'Block systems converted to PETSc nested systems keep their entries',
     'Wrapping a block system as a PETSc nested matrix/vector gives the same action and entries as the block system, and transferring a nested solution back to the block function puts each piece into its component. The same holds for nested preconditioners (exact inverses of blocks, their sums, groups of blocks).',
     'all block systems',
     'No stable test.',
     ['xii/linalg/nest.py'],
     [('nest', 'xii/linalg/nest.py')],
     over=('inputs',), observe=['nest'], note='random block systems vs dense')

prop('L06', 'Matrix utilities agree with linear algebra',
     'Utilities that build or analyse matrices (diagonals, identity and zero matrices, row/column selections, products, numpy/scipy conversions, list utilities, reshaping of block layouts, operators/projectors of function spaces, zero mean spaces) return the matrices that their mathematical definition prescribes for every input.',
     'all matrices/vectors/spaces',
     'No stable test.',
     ['xii/linalg/matrix_utils.py', 'xii/linalg/fe_space_op.py', 'xii/linalg/sherman_morrison.py', 'xii/linalg/list_utils.py'],
     [('utilities', 'xii/linalg/matrix_utils.py')],
     over=('inputs',), observe=['matrix_utils'], note='random matrices vs numpy')

prop('L07', 'Operator wrappers and Krylov interface solve the given system',
     'Operators obtained by wrapping a block operator for an external library act as the original operator on every vector, and the Krylov solvers built from block systems return the '
     'solution of the system.',
     'all block operators/right hand sides', 'No stable test.',
     ['xii/linalg/krylov_api.py', 'xii/linalg/block_utils.py'], [('krylov api', 'xii/linalg/krylov_api.py')],
     observe=['ii_PETScOperator'], note='random block systems vs dense')

# Meshing ------------------------------------------------------------------------------------------
prop('M01', 'Embedded mesh is the set of marked entities with its maps to the parent',
     'A mesh embedded by marked entities has one cell per marked entity with the same geometry and tag, each vertex once, and its maps send vertices and cells to the parent vertices and entities they come from. Markers translated between parents and embedded meshes keep the tag of each corresponding entity. The skeleton of a mesh is embedded by its interior facets. Maps computed for an existing mesh send its vertices and cells to those of the other mesh which are at the same place.',
     'all meshes, entity dimensions, markings, tag selections, nesting of embedded meshes',
     'test_embedded_mesh samples a handful of structured meshes with fixed markings.',
     ['xii/meshing/embedded_mesh.py', 'xii/meshing/transfer_markers.py', 'xii/meshing/make_mesh_cpp.py'],
     [('EmbeddedMesh construction', 'xii/meshing/embedded_mesh.py')],
     over=('inputs',), observe=['EmbeddedMesh'], note='random meshes and markings against own entity matching by coordinates')

prop('M02', 'Submeshes of cells and overlaps',
     'A submesh of marked cells consists of exactly these cells (same geometry, once), knows the parent cell and vertex of each of its own, and the overlap of two submeshes of one mesh (with one tag in common) is made of the cells common to both, with maps to both.',
     'all meshes and markings',
     'No stable test.',
     ['xii/meshing/subdomain_mesh.py', 'xii/meshing/embedded_mesh.py'],
     [('SubDomainMesh, OverlapMesh', 'xii/meshing/subdomain_mesh.py')],
     over=('inputs',), observe=['SubDomainMesh', 'OverlapMesh'], note='random meshes and markings against own matching')

prop('M03', 'Mortar decomposition partitions the mesh and finds all interfaces',
     'The mortar decomposition of a marked mesh gives one submesh per subdomain, the interface mesh consists of exactly the facets between different subdomains, each interface cell is tagged by the pair of subdomains it separates and maps into facets of both. Traces from the submeshes to the interface are those of functions on the submeshes.',
     'all meshes and cell markings',
     'No stable test.',
     ['xii/meshing/mortar_mesh.py'],
     [('mortar_meshes', 'xii/meshing/mortar_mesh.py')],
     over=('inputs',), observe=['mortar_meshes'], note='random meshes and markings against own enumeration of facets')

prop('M04', 'Normals and tangents of embedded meshes',
     'The normal on a mesh made of facets is the unit vector orthogonal to each of its cells with the orientation which is given: away from a point (the center of the mesh unless it is given), out of the domain, from the subdomain with the higher to that with the lower tag, or along the given field; the inner normal is its opposite. The tangent of a curve is the unit vector along each of its cells, away from the root on trees and in one direction along a loop; the normal of a planar loop points to the side of the given point (out of the loop by default). None of this depends on numbering of vertices and cells.',
     'all volume meshes, facet markings, points/fields/subdomains giving the orientation, networks, loops',
     'No stable test.',
     ['xii/meshing/embedded_mesh.py'],
     [('OuterNormal, InnerNormal, TangentCurve', 'xii/meshing/embedded_mesh.py')],
     over=('inputs',), observe=['OuterNormal', 'InnerNormal', 'TangentCurve'], note='generated meshes and curves, geometric invariants')

prop('M05', 'Subdivisions of cells and dual meshes tile the domain',
     'Subdivision of each cell by its centroid or circumcenter and the dual mesh, applied once or repeatedly, yield conforming meshes of the same domain: each cell is the union of the pieces which are mapped to it, each vertex of the coarse mesh is a vertex of the fine mesh and is mapped to itself, new vertices are the prescribed centers. A circumcenter outside of its cell is rejected by the refinement.',
     'all curves, planar meshes, surfaces and solids; centers; numbers of refinements',
     'test_refine samples two meshes.',
     ['xii/meshing/refinement.py', 'xii/meshing/dual_mesh.py'],
     [('refinement', 'xii/meshing/refinement.py')],
     over=('inputs',), observe=['refine'], note='generated meshes against geometric invariants')

prop('M06', 'Curves and unions of meshes',
     'Meshes of curves built from branches have precisely the cells linking consecutive points of each branch with the branches joined in their end points (also loops and branches with two points), straight line meshes subdivide a segment uniformly, the union of any number of meshes which share points of their boundaries has all the cells of the parts, with the shared points identified, maps from each part, and leaves the parts as they were. A mesh made from arrays of coordinates and cells has these.',
     'all graphs, point sets, collections of meshes',
     'No stable test.',
     ['xii/meshing/line_mesh.py', 'xii/meshing/generation.py', 'xii/meshing/union_mesh.py', 'xii/meshing/make_mesh_cpp.py'],
     [('line_mesh', 'xii/meshing/line_mesh.py'), ('union_mesh', 'xii/meshing/union_mesh.py')],
     over=('inputs',), observe=['line_mesh', 'StraightLineMesh', 'union_mesh', 'make_mesh'], note='random graphs and meshes against own bookkeeping')

prop('M07', 'Cell centers and distances',
     'Cell centers (centroid, circumcenter) and facet centers given as finite element functions equal those computed from the vertices of each cell (facet), for curves, surfaces and solids. The center distances (vectors) across interior facets are the distances (differences) of the centers of the two cells, on boundary facets those of cell and facet center; the second variant measures the distance through the center of the facet.',
     'all meshes',
     'No stable test.',
     ['xii/meshing/cell_centers.py', 'xii/meshing/dg_utils.py'],
     [('cell centers', 'xii/meshing/cell_centers.py')],
     over=('inputs',), observe=['CellCentroid', 'CellCircumcenter', 'CentroidDistance'], note='random meshes against direct formulae')

prop('M08', 'Branches of a curve',
     'The decomposition of a curve mesh into branches covers every cell exactly once, with branches ending in points where one or more than two cells meet and loops being closed, and walking a branch visits its cells (vertices) in the order they connect. A point is inside of a closed contour precisely if the contour winds around it.',
     'all graphs of cells',
     'No stable test.',
     ['xii/meshing/branching.py'],
     [('branching', 'xii/meshing/branching.py')],
     over=('inputs',), observe=['color_branches', 'walk_vertices', 'walk_cells', 'is_loop', 'is_inside_contour', 'refine_contour'], note='random graphs against networkx-free reference')

prop('M09', 'Collision of a cell with a segment',
     'A segment in the plane collides with another segment, and a triangle in space with a segment, precisely if they have a common point, for all pairs which are not parallel and in whatever order the points are listed.',
     'all pairs of cells and segments in general position',
     'No stable test.',
     ['xii/meshing/line_collision.py'],
     [('line collision', 'xii/meshing/line_collision.py')],
     over=('inputs',), observe=['collides_cell'], note='random rational coordinates against exact arithmetic')

prop('M10', 'Meshes from gmsh data',
     'The mesh made of a table of nodes and tagged elements (as given by gmsh) has exactly the listed cells of the highest dimension with the coordinates of their nodes, for each numbering of the nodes (also with nodes which are not in the cells), '
     'and the returned mesh functions carry the tag of each listed entity and zero on all others.',
     'all meshes (surfaces, planes, solids), numberings, sets of tagged entities', 'No test.',
     ['xii/meshing/gmsh_interopt.py'], [('mesh_from_gmsh', 'xii/meshing/gmsh_interopt.py')],
     observe=['mesh_from_gmsh', 'build_mesh'], note='generated meshes encoded as gmsh data; gmsh itself is not needed')

prop('M11', 'Pictures and stored meshes show the mesh and its markers',
     'The TikZ picture of a mesh has one filled triangle per cell, one line per edge and one node per vertex whose tag has a style, and named coordinates of the domain centers, of the common points of differently tagged edges, of the corners and bifurcations. '
     'A mesh and mesh functions loaded from a file are those which were stored; missing ones are reported as such.',
     'all meshes, markers, styles', 'No test.',
     ['xii/meshing/tikz.py'], [('tikzify_2d_mesh, load_mesh', 'xii/meshing/tikz.py')],
     observe=['tikzify_2d_mesh', 'load_mesh'], note='the generated picture is parsed and compared with the mesh')


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py'))]
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['quantifier']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh',
               checks=[dict(property=p['id'], quick_cmd='./check ' + p['id'],
                            thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
                            technique='property-based testing (Hypothesis): generated cases against an independent oracle, shrinking to a replay file',
                            level='exploration', level_note=p['note']) for p in claimed],
               not_applicable=[dict(property=p['id'], reason=p['na'] or 'check not built (yet): nothing is claimed')
                               for p in P if p not in claimed])
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(claimed), 'claimed')


main()
