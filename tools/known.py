"""Maintains known_findings.json by hand-written entries (development tool; never run by a check)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED = [  # property, subject of the fix commit, what failed
    ('A02', 'fix: average and jump traces can be assembled and follow',
     "Trace(u,'|') / Trace(u,'[]') could not be assembled; convention of the jump"),
    ('A03', 'fix: unguarded embedding prevented fallback',
     'assembling a trace onto a mesh that is not made of facets raised instead of falling back to the nonconforming trace'),
    ('A01', 'fix: embedding of missing tags is computed',
     'trace limited to tags not in the parent entity map raised KeyError'),
    ('A03', 'fix: nonconforming trace respects the tags',
     'nonconforming trace ignored tags and filled all rows'),
    ('A07', 'fix: disk quadrature falls back to the highest rule',
     'Disk with degree > 19 raised'),
    ('A07', 'fix: disk quadrature of degree 11 is not exact',
     'Disk with degree 10/11 does not integrate polynomials of that degree'),
    ('A07', 'fix: SquareRim accepts the corner as a list',
     'SquareRim with corner given as list/tuple raised'),
    ('A10', 'fix: gradient point trace at the same point depends on the tangent',
     'gradient point trace with another tangent at the same point was taken from the cache'),
    ('A11', 'fix: patch averaging with coloring allows for patch shared',
     'patch average with a colouring failed when several dofs share a patch'),
    ('A10', 'fix: point trace of a function does not modify the function',
     'assembling a point trace of a Function changed the Function object (second point/plain use wrong)'),
    ('A05', 'fix: integrals are told apart also if they only differ by reduction',
     'sum of integrals differing only in the reduction of their arguments assembled wrongly'),
    ('A12', 'fix: mean with a weight follows the current value of the weight',
     'Mean with a weight function used the value of the weight from the first assembly'),
    ('A14', 'fix: injection by the parent cells can be assembled',
     'Injection with method None (parent map) raised'),
    ('A14', 'fix: injection does not depend on the order of items in the parent map',
     'injection wrong if the parent map is not ordered by the child cells'),
    ('A06', 'fix: injection with a different method is not taken from the cache',
     'injection with another method was taken from the cache'),
    ('A16', 'fix: transpose trace maps from the embedded mesh',
     'transpose trace could not be assembled/mapped in the wrong direction'),
    ('A06', 'fix: trace follows the current values of normal and markers',
     'trace used the values of normal/markers from the first assembly'),
    ('A06', 'fix: patch average follows the current values of patch functions',
     'patch average used the values of the patch function from the first assembly'),
    ('A04', 'fix: several flux averages of a function can be combined in a form',
     'form with two flux averages of one function raised'),
    ('A05', 'fix: constant as a block of block form can be assembled',
     'Constant as a block of a block form raised'),
    ('A15', 'fix: adjoint of forms with equal test and trial spaces and with any reduced arguments',
     'adjoint of forms with equal spaces or reduced arguments was wrong or raised'),
    ('N01', 'fix: derivative with respect to coefficients reduced by any operator',
     'derivative w.r.t. a coefficient reduced by other than trace/average raised or missed terms'),
    ('N01', 'fix: derivative of forms with expressions',
     'derivative of a form with an Expression raised'),
    ('A15', 'fix: adding a form with several integrals to block form returns the block form',
     'block form + form with several integrals returned something else'),
    ('A15', 'fix: permutation of block form with one block',
     'permutation of a 1 block form raised'),
    ('L01', 'fix: transpose of composite operators and numbers in sums of matrices can be collapsed', 'collapse of a transposed composite or of sum with numbers raised'),
    ('L01', 'fix: shared subexpressions in iterative collapse', 'iterative collapse of expression with shared subexpressions was wrong'),
    ('L01', 'fix: nonzero number as offdiagonal block is not lost in conversion', 'nonzero number as an offdiagonal block was converted to zero block'),
    ('L01', 'fix: sizes in conversion by assembly of block matrix', 'monolithic conversion of block matrix with numbers had wrong sizes'),
    ('L01', 'fix: product of numbers in iterative collapse', 'iterative collapse of a product of numbers raised'),
    ('L01', 'fix: dimensions of products and sums which include numbers', 'dimensions of products and sums with numbers were wrong'),
    ('L01', 'fix: product with a number before a sum of matrices can be collapsed', 'collapse of number times sum raised'),
    ('L01', 'fix: results of collapsed subexpressions are told apart', 'iterative collapse mixed up results'),
    ('L02', 'fix: boundary conditions given as dictionary of values or with no constrained dofs', 'apply_bc with dictionary of values or no constrained dofs raised'),
    ('L02', 'fix: function applying updated boundary conditions to the right hand side', 'apply_b returned by apply_bc raised/was wrong'),
    ('L07', 'fix: nullspace of PETSc operator is made of the given vectors', 'nullspace of ii_PETScOperator did not consist of the given vectors'),
    ('L07', 'fix: PETSc operator without nullspace', 'ii_PETScOperator without nullspace raised'),
    ('L07', 'fix: linear operator for scipy acts on vectors with sizes of columns', 'ScipyLinOp with non-square blocks raised'),
    ('L07', 'fix: cbc solvers with the default number of iterations', 'cbc_solve with maxiter=None raised'),
    ('L03', 'fix: vectorized operator on list of spaces', 'vectorized operator on a list of spaces raised'),
    ('L03', 'fix: unpacking of regrouped block vector with one block', 'unpacking regrouped vector with one block was wrong'),
    ('L04', 'fix: nullspace vectors given by constants', 'nullspace vectors given by constants raised'),
    ('L05', 'fix: numbers as blocks are not lost in nested matrix', 'numbers as blocks were lost in nested matrix'),
    ('L05', 'fix: additive preconditioner in nested preconditioner with newer petsc4py', 'sum in nested preconditioner raised'),
    ('L06', 'fix: orthonormalization of nullspace with repeated eigenvalues of the Gram matrix', 'projector with e.g. orthonormal nullspace vectors raised'),
    ('L06', 'fix: Riesz map inverts the inner product on the complement of the nullspace', 'L20_riesz_map was not the inverse of L20_inner_product; division by zero with one vector'),
    ('L06', 'fix: collapse of operator on spaces does not depend on previously created vectors', 'FESpaceOperator.collapse was wrong if vectors were created before'),
    ('A06', 'fix: mean follows the current values of markers of the measure', 'mean with a measure used the markers from the first assembly'),
    ('A06', 'fix: patch average with another coloring is not taken from the cache', 'patch average with another (partial) coloring was taken from the cache'),
    ('M01', 'fix: computed embedding maps vertices too', 'compute_embedding left the map of vertices empty'),
    ('M01', 'fix: embedding map of a mesh with a single cell', 'embedding map of a mesh with one cell failed'),
    ('M02', 'fix: overlap mesh maps to the second mesh in the same way', 'maps of the overlap to the second mesh were not dictionaries/incomplete'),
    ('M03', 'fix: mortar interface has dictionary maps to cells of the submeshes', 'maps of mortar interface were lists'),
    ('M03', 'fix: facets of mortar submeshes are found also far from the origin', 'mortar meshes failed for domains far from the origin'),
    ('M08', 'fix: walking vertices of a mesh', 'walk_vertices of a mesh raised'),
    ('M08', 'fix: branches of a mesh include each of the loops without terminals', 'several loops without terminals were not told apart'),
    ('M04', 'fix: winding number of points with respect to mesh of a loop', 'wind_number and NormalCurve raised NameError; enclosed points depended on the orientation'),
    ('M04', 'fix: tangent of a loop has the same direction in all the cells', 'TangentCurve on a loop was not consistently oriented'),
    ('M04', 'fix: normal of a loop does not depend on numbering of the mesh', 'side of NormalCurve depended on the numbering'),
    ('M07', 'fix: circumcenters of curves in 3d', 'CellCircumcenter of curve in 3d failed to compile'),
    ('M07', 'fix: CentroidDistance2 is the distance through the center of the facet', 'CentroidDistance2 was the norm of both of the centers'),
    ('M07', 'fix: distance of circumcenters for cells with centers at the origin', 'CircumDistance2 failed if all centers are at the origin'),
    ('M06', 'fix: branches of line mesh without interior nodes', 'branches with two nodes (StraightLineMesh with one cell) were dropped'),
    ('M06', 'fix: first branch of line mesh is a loop', 'loop as the first branch was not closed'),
    ('M06', 'fix: union of more than two meshes', 'union of more than two meshes raised'),
    ('M06', 'fix: union does not change the meshes it is made of', 'maps of a union used in other union were changed'),
    ('M06', 'fix: union with mesh whose all boundary vertices are shared', 'union with a mesh which fills a hole raised'),
    ('M10', 'fix: tetrahedra in gmsh data are cells of a mesh with dimension 3', 'gmsh data of a 3d mesh raised'),
    ('M10', 'fix: numbering of vertices of the mesh from gmsh data', 'gmsh data with nodes out of cells raised'),
]
KNOWN = [  # dict(property, key, what)
]

def main():
    log = [l.split(' ', 1) for l in subprocess.check_output(
        ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()]
    out = []
    for prop, subj, what in FIXED:
        c = [h for h, s in log if s.startswith(subj)]
        assert len(c) == 1, (subj, c)
        out.append(dict(property=prop, status='fixed', key=c[0], commit=c[0], what=what,
                        line=f'fixed: property={prop} {c[0]} {what}'))
    for k in KNOWN:
        out.append(dict(status='known', **k))
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump({'findings': out}, f, indent=1)
        f.write('\n')

if __name__ == '__main__':
    main()
