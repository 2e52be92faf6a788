'''Matrix utilities'''
from xii import *
from la import *
from xii.linalg.matrix_utils import (transpose_matrix, diagonal_matrix, identity_matrix, block_reshape, zero_matrix, row_matrix, petsc_serial_matrix, is_number, is_petsc_vec, is_petsc_mat, as_petsc)
from xii.linalg.list_utils import shape_list, flatten_list, reshape_list
from xii.linalg.fe_space_op import FESpaceOperator
from xii.linalg.sherman_morrison import Projector, L20_inner_product, L20_riesz_map

BOOST = 4
RULE = ('Case = (utility, sizes, values, spaces). Non-trivial: more than one row and column (blocks, items).')
ASSUMPTIONS = ['numpy', 'assembly of mass matrices and interpolation by dolfin']

KINDS = ('transpose', 'petsc transpose', 'diag number', 'diag vector', 'identity', 'identity space', 'identity list', 'zero', 'rows', 'fill', 'fill spaces')


@st.composite
def utils(draw):
    return dict(kind=draw(st.sampled_from(KINDS)), m=draw(st.integers(1, 6)), n=draw(st.integers(1, 6)), seed=draw(SEED), num=draw(st.sampled_from([1, 0, -2, 0.5, 3.25])),
                backend=draw(st.sampled_from(['petsc', 'matrix'])), spaces=draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)))


SPACES = {}


def space(k):
    if k not in SPACES:
        mesh = df.UnitSquareMesh(1, 2) if k % 2 else df.UnitIntervalMesh(3)
        SPACES[k] = df.FunctionSpace(mesh, ['CG', 'DG'][k // 2], 1+k//2)
    return SPACES[k]


def body_utils(s):
    kind, m, n, seed = s['kind'], s['m'], s['n'], s['seed']
    rng = rng_of(seed)
    a = rand_dense(m, n, seed)
    if kind == 'transpose':
        A = petsc_mat(a, s['backend'])
        B = transpose_matrix(A)
        require(is_mat(B), 'type')
        close(B.array(), a.T, 1E-15, 'transpose')
        close(A.array(), a, 1E-15, 'operand')
        B *= 2
        close(A.array(), a, 1E-15, 'operand')
        require(is_petsc_mat(A) and not is_petsc_vec(A) and not is_number(A), 'type queries')
        close(as_petsc(A).getValues(range(m), range(n)), a, 1E-15, 'as_petsc')
    elif kind == 'petsc transpose':
        A = df.as_backend_type(petsc_mat(a, s['backend'])).mat()
        B = transpose_matrix(A)
        require(isinstance(B, PETSc.Mat), 'type')
        close(B.getValues(range(n), range(m)), a.T, 1E-15, 'transpose')
        close(A.getValues(range(m), range(n)), a, 1E-15, 'operand')
    elif kind == 'diag number':
        A = diagonal_matrix(m, s['num'])
        close(A.array(), s['num']*np.eye(m), 1E-15, 'diagonal')
        require(is_number(s['num']), 'number')
        n = m
    elif kind == 'diag vector':
        d = np.round(rng.uniform(-1, 1, m), 1)
        D = vector(d, 'petsc' if s['backend'] == 'petsc' else 'vector')
        A = diagonal_matrix(m, D)
        close(A.array(), np.diag(d), 1E-15, 'diagonal')
        D *= 2
        close(A.array(), np.diag(d), 1E-15, 'diagonal after the vector has changed')
        require(is_petsc_vec(D) and not is_petsc_mat(D), 'type queries')
        n = m
    elif kind == 'identity':
        close(identity_matrix(m).array(), np.eye(m), 1E-15, 'identity')
        n = m
    elif kind == 'identity space':
        V = space(s['spaces'][0])
        close(identity_matrix(V).array(), np.eye(V.dim()), 1E-15, 'identity')
    elif kind == 'identity list':
        W = [space(k) if rng.randint(2) else k+1 for k in s['spaces']]
        I = identity_matrix(W)
        sizes = [w if isinstance(w, int) else w.dim() for w in W]
        require(isinstance(I, block_mat) and I.blocks.shape == (len(W), len(W)), 'layout')
        x = [rng.uniform(-1, 1, k) for k in sizes]
        y = I*block_vec([vector(xi) for xi in x])
        for xi, yi in zip(x, y):
            close(arr(yi), xi, 1E-15, 'identity')
        close(ii_convert(I).array(), np.eye(sum(sizes)), 1E-15, 'identity')
        n = len(W)
    elif kind == 'zero':
        A = zero_matrix(m, n)
        close(A.array(), np.zeros((m, n)), 1E-15, 'zero')
        require((A.size(0), A.size(1)) == (m, n), 'size')
    elif kind == 'rows':
        A = row_matrix([vector(r, 'petsc' if s['backend'] == 'petsc' else 'vector') for r in a])
        close(A.array(), a, 1E-15, 'rows')
    else:
        if kind == 'fill':
            V, W = m, n
        else:
            V, W = space(s['spaces'][0]), space(s['spaces'][-1])
            m, n = V.dim(), W.dim()
            a = rand_dense(m, n, seed)
        with petsc_serial_matrix(V, W) as mat:
            for i in rng.permutation(m):
                cols = np.array(rng.permutation(n), dtype='int32')
                mat.setValues([i], cols, a[i][cols], PETSc.InsertMode.INSERT_VALUES)
        A = df.PETScMatrix(mat)
        close(A.array(), a, 1E-15, 'values')
        x = rng.uniform(-1, 1, n)
        close((A*vector(x)).get_local(), a.dot(x), 1E-12, 'action', scale=10)
    return kind if m > 1 and n > 1 else None


@st.composite
def reshapes(draw):
    sizes = draw(st.lists(st.integers(1, 3), min_size=1, max_size=4))
    cuts = sorted(set(draw(st.lists(st.integers(1, len(sizes)), max_size=3))) | {len(sizes)})
    return dict(sizes=sizes, offsets=cuts, seed=draw(SEED))


def body_reshape(s):
    sizes, offsets = s['sizes'], s['offsets']
    n = len(sizes)
    rng = rng_of(s['seed'])
    a = [[rand_dense(sizes[i], sizes[j], rng.randint(10**6)) for j in range(n)] for i in range(n)]
    A = block_mat([[petsc_mat(a[i][j]) if (rng.randint(4) or not i or not j) else 0 for j in range(n)] for i in range(n)])
    for i in range(n):
        for j in range(n):
            if not is_mat(A[i, j]):
                a[i][j] = 0*a[i][j]
    B = block_reshape(A, offsets)
    cuts = [0]+offsets
    require(B.blocks.shape == (len(offsets), len(offsets)), 'layout')
    for I in range(len(offsets)):
        for J in range(len(offsets)):
            ri, rj, ci, cj = cuts[I], cuts[I+1], cuts[J], cuts[J+1]
            b = B[I, J]
            if rj-ri == 1 and cj-ci == 1:
                require(b is A[ri, ci] or b == A[ri, ci], 'block')
            else:
                require(isinstance(b, block_mat) and b.blocks.shape == (rj-ri, cj-ci), 'layout of group')
                for i in range(ri, rj):
                    for j in range(ci, cj):
                        require(b[i-ri, j-ci] is A[i, j] or b[i-ri, j-ci] == A[i, j], 'block of group')
    # Action. NOTE: groups with one block are not nested so they do not combine with the nested ones
    if len(set(hi-lo > 1 for lo, hi in zip(cuts[:-1], cuts[1:]))) > 1:
        return f'{n}->{len(offsets)}'
    # NOTE: the product of a group with a row of zeros is None in cbc.block, which does not add to vectors
    if any(not any(is_mat(A[i, j]) for j in range(lo, hi)) for i in range(n) for lo, hi in zip(cuts[:-1], cuts[1:])):
        return f'{n}->{len(offsets)}'
    x = [rng.uniform(-1, 1, k) for k in sizes]
    ref = np.block(a).dot(np.hstack(x))
    X = []
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        X.append(vector(x[lo]) if hi-lo == 1 else block_vec([vector(x[k]) for k in range(lo, hi)]))
    Y = B*block_vec(X)
    y = [v for p in Y for v in (p if isinstance(p, block_vec) else [p])]
    close(np.hstack([arr(v) for v in y]), ref, 1E-12, 'action', scale=10)
    return f'{n}->{len(offsets)}' if len(offsets) < n and len(offsets) > 1 else None


@st.composite
def lists(draw):
    return dict(shape=draw(st.lists(st.integers(1, 4), min_size=1, max_size=4)), order=draw(SEED), ragged=draw(st.integers(0, 4)) == 0, values=draw(st.sampled_from(['int', 'str', 'obj'])))


def body_lists(s):
    shape = tuple(s['shape'])
    n = int(np.prod(shape))
    make = {'int': int, 'str': str, 'obj': lambda i: (i, )}[s['values']]

    def nest(offset, shape):
        if len(shape) == 1:
            return [make(offset+i) for i in range(shape[0])]
        stride = int(np.prod(shape[1:]))
        return [nest(offset+i*stride, shape[1:]) for i in range(shape[0])]
    a = nest(0, shape)
    if s['ragged'] and len(shape) > 1 and shape[0] > 1:
        b = nest(0, shape)
        b[-1] = b[-1] + [b[-1][0]]
        raises((AssertionError, ValueError), lambda: shape_list(b), 'ragged list')
        return 'ragged'
    require(shape_list(a) == shape, f'shape {shape_list(a)} expected {shape}')
    require(flatten_list(a) == nest(0, (n, )), 'flat list')
    # New shape
    rng = rng_of(s['order'])
    new, rest = [], n
    while rest > 1 and len(new) < 4:
        d = [k for k in range(1, rest+1) if rest % k == 0]
        new.append(int(d[rng.randint(len(d))]))
        rest //= new[-1]
    new = tuple(new+[rest])
    require(reshape_list(a, new) == nest(0, new), f'reshape to {new}')
    require(a == nest(0, shape), 'input changed')
    raises((AssertionError, ValueError), lambda: reshape_list(a, (n+1, )), 'wrong size')
    return f'{len(shape)}->{len(new)}' if n > 1 and len(shape) > 1 else None


@st.composite
def ops(draw):
    return dict(V=draw(st.integers(0, 3)), W=draw(st.integers(0, 3)), seed=draw(SEED), same=draw(st.booleans()), dirty=draw(st.integers(0, 2)), pooled=draw(st.booleans()))


def body_op(s):
    V1 = space(s['V'])
    V0 = V1 if s['same'] else space(s['W'])
    m, n = V0.dim(), V1.dim()
    a = rand_dense(m, n, s['seed'])

    class Op(FESpaceOperator):
        def __init__(self):
            FESpaceOperator.__init__(self, V1) if s['same'] else FESpaceOperator.__init__(self, V1, V0)

        def matvec(self, b):
            y = self.create_vec(0) if s['pooled'] else df.Vector(df.MPI.comm_world, m)
            y.set_local(a.dot(b.get_local()))
            return y

    op = Op()
    for k in range(s['dirty']):
        for dim in (0, 1):
            x = op.create_vec(dim)
            require(x.size() == (m, n)[dim], 'size of vector')
            x.set_local(vals(s['seed']+k, x.size()))
            del x
    A = op.collapse()
    require(is_mat(A), 'type')
    close(A.array(), a, 1E-15, 'collapsed')
    close(op.collapse().array(), a, 1E-15, 'collapsed again')
    x = vals(s['seed'], n)
    close((op*vector(x)).get_local(), a.dot(x), 1E-13, 'action', scale=10)
    close(ii_convert(2*op).array(), 2*a, 1E-14, 'converted')
    return f'{m}x{n}'


POLYS = ['1', 'x[0]', 'x[1]', 'x[0]-0.5', 'x[1]-0.5', 'x[0]*x[1]', 'x[0]*x[0]']


@st.composite
def nulls(draw):
    vec = draw(st.booleans())
    names = POLYS if not vec else [f'{i},{p}' for i in (0, 1) for p in ['1', 'x[0]', 'x[1]', 'x[1]-0.5']]+['rot']
    return dict(vec=vec, deg=draw(st.integers(1, 2)), elm=draw(st.sampled_from(['CG', 'DG'])), n=draw(st.integers(1, 3)), null=draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True)), seed=draw(SEED),
                jit=draw(st.none() | SEED), aff=draw(st.integers(0, 2)))


def expression(name, vec):
    if not vec:
        return df.Constant(1) if name == '1' else df.Expression(name, degree=2)
    if name == 'rot':
        return df.Expression(('-x[1]', 'x[0]'), degree=1)
    i, p = name.split(',')
    comps = ['0', '0']
    comps[int(i)] = p
    return df.Constant(tuple(map(float, comps))) if p == '1' else df.Expression(tuple(comps), degree=2)


def body_null(s):
    mesh = mesh_of(dict(k='sq', n=[s['n'], s['n']], jit=s['jit'], aff=s['aff']))
    V = (df.VectorFunctionSpace if s['vec'] else df.FunctionSpace)(mesh, s['elm'], s['deg'])
    exprs = [expression(p, s['vec']) for p in s['null']]
    M = df.assemble(df.inner(df.TrialFunction(V), df.TestFunction(V))*df.dx).array()
    Z = np.array([df.interpolate(e, V).vector().get_local() for e in exprs]).T
    G = Z.T.dot(M).dot(Z)
    if np.linalg.cond(G) > 1E6:
        raises(AssertionError, lambda: Projector(V, exprs), 'dependent vectors') if np.linalg.eigvalsh(G).min() < -1E-10 else None
        return None
    # Reference
    P = np.eye(V.dim())-Z.dot(np.linalg.solve(G, Z.T.dot(M)))
    p = Projector(V, exprs)
    rng = rng_of(s['seed'])
    B = np.array([z.get_local() for z in p.primal_basis])
    close(B.dot(M).dot(B.T), np.eye(len(B)), 1E-8, 'orthonormal basis')
    x = rng.uniform(-1, 1, V.dim())
    X = vector(x, 'vector')
    close((p*X).get_local(), P.dot(x), 1E-8, 'projection', scale=10)
    close(X.get_local(), x, 1E-15, 'input')
    close(p.collapse().array(), P, 1E-8, 'matrix of projection', scale=10)
    # A function of the nullspace
    z = vector(Z.dot(rng.uniform(-1, 1, len(exprs))), 'vector')
    close((p*z).get_local(), 0*x, 1E-8, 'nullspace')
    ip = L20_inner_product(V, exprs)
    close((ip*X).get_local(), M.dot(P.dot(x)), 1E-8, 'inner product')
    close(ip.collapse().array(), M.dot(P), 1E-8, 'matrix of inner product')
    riesz = L20_riesz_map(V, exprs)
    close((riesz*(ip*X)).get_local(), P.dot(x), 1E-8, 'Riesz map', scale=10)
    return f'{len(exprs)}'


SUBCHECKS = [Sub('utils', utils(), body_utils, quick=300, thorough=6000, chunks=2),
             Sub('reshape', reshapes(), body_reshape, quick=100, thorough=2000),
             Sub('lists', lists(), body_lists, quick=200, thorough=5000),
             Sub('op', ops(), body_op, quick=60, thorough=1500),
             Sub('null', nulls(), body_null, quick=80, thorough=1500, chunks=2)]
