'''Wrappers of block operators and solvers'''
import io, contextlib, warnings
from xii import *
from la import *
from xii.linalg.krylov_api import ScipyLinOp, scipy_solve, cbc_solve, pyamg_solve
from xii.linalg.block_utils import BlockPC
from xii.linalg.function import as_petsc_nest
from block.algebraic.petsc import LU, Cholesky

BOOST = 8
RULE = ('Case = (block operator of random matrices with numbers and composites, or a single matrix/composite; vectors; method, preconditioner, initial guess, nullspace). '
        'Non-trivial: the operator has at least 2 blocks.')
ASSUMPTIONS = ['numpy', 'convergence of Krylov methods for (preconditioned) well conditioned problems of few unknowns']


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def split(x, sizes, kind='petsc'):
    return block_vec([vector(p, kind) for p in np.split(np.asarray(x, dtype=float), np.cumsum(sizes)[:-1])])


def stack(b):
    return np.hstack([arr(x) for x in b]) if isinstance(b, block_vec) else arr(b)


@st.composite
def operators(draw):
    rows = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    cols = rows if draw(st.integers(0, 2)) else draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    return dict(rows=rows, cols=cols, kinds=[[draw(st.sampled_from(['mat', 'mat', 'sum', 'product', 'T', 'zero', 'num'])) for _ in cols] for _ in rows], seed=draw(SEED), single=draw(st.integers(0, 3)) == 0)


def make(s):
    rows, cols = s['rows'], s['cols']
    rng = rng_of(s['seed'])
    env = Env()
    leaf = lambda a: env.leaf(a, petsc_mat(a, ['petsc', 'matrix'][rng.randint(2)]))
    a, A = [], []
    for i, m in enumerate(rows):
        a.append([]), A.append([])
        for j, n in enumerate(cols):
            kind = s['kinds'][i][j]
            x, y = rand_dense(m, n, rng.randint(10**6)), rand_dense(m, n, rng.randint(10**6))
            if kind == 'num' and m != n:
                kind = 'zero'
            if kind in ('num', 'zero') and (i == 0 or j == 0):
                kind = 'mat'
            if kind == 'mat':
                v, V = x, leaf(x)
            elif kind == 'sum':
                v, V = 2*x-y, 2*leaf(x)-leaf(y)
            elif kind == 'product':
                z = rand_dense(n, n, rng.randint(10**6))
                v, V = x.dot(z), leaf(x)*leaf(z)
            elif kind == 'T':
                v, V = x, leaf(x.T).T
            elif kind == 'zero':
                v, V = 0*x, 0
            else:
                c = [2, -0.5, 3][rng.randint(3)]
                v, V = c*np.eye(m), c
            a[-1].append(v), A[-1].append(V)
    return env, a, A


def body_operators(s):
    env, a, A = make(s)
    rows, cols = s['rows'], s['cols']
    rng = rng_of(s['seed']+1)
    if s['single']:
        # Not a block operator
        B, b = A[0][0], a[0][0]
        m, n = b.shape
        op = quiet(lambda: ii_PETScOperator(B))
        require(tuple(op.getSize()) == (m, n), 'size of the operator')
        for rep in range(2):
            x, y = rng.uniform(-1, 1, n), rng.uniform(-1, 1, m)
            X, Y = vector(x), vector(y)
            op.mult(df.as_backend_type(X).vec(), df.as_backend_type(Y).vec())
            close(arr(Y), b.dot(x), 1E-12, 'action', scale=100)
            close(arr(X), x, 1E-15, 'input')
            X, Y = vector(x), vector(y)
            op.multTranspose(df.as_backend_type(Y).vec(), df.as_backend_type(X).vec())
            close(arr(X), b.T.dot(y), 1E-12, 'transpose action', scale=100)
        if m == n:
            ksp = PETSc.KSP().create()
            ksp.setOperators(op)
            pc = quiet(lambda: ii_PETScPreconditioner(B, ksp))
            x = rng.uniform(-1, 1, n)
            X, Y = vector(x), vector(0*x+1)
            pc.apply(df.as_backend_type(X).vec(), df.as_backend_type(Y).vec())
            close(arr(Y), b.dot(x), 1E-12, 'preconditioner', scale=100)
            pc.applyTranspose(df.as_backend_type(X).vec(), df.as_backend_type(Y).vec())
            close(arr(Y), b.T.dot(x), 1E-12, 'transpose preconditioner', scale=100)
        env.unchanged()
        return None
    AA, dense = block_mat(A), np.block(a)
    m, n = dense.shape
    # Scipy
    op = ScipyLinOp(AA)
    require(tuple(op.shape) == (m, n), f'shape {op.shape} expected {(m, n)}')
    X = rng.uniform(-1, 1, (n, 3))
    before = X.copy()
    close(op.matvec(X[:, 0]), dense.dot(X[:, 0]), 1E-12, 'scipy matvec', scale=100)
    first = op.matvec(X[:, 1])
    close(op.matmat(X), dense.dot(X), 1E-12, 'scipy matmat', scale=100)
    close(first, dense.dot(X[:, 1]), 1E-12, 'earlier result', scale=100)
    close(X, before, 1E-15, 'input changed')
    # PETSc
    op = quiet(lambda: ii_PETScOperator(AA, None))
    require(tuple(op.getSize()) == (m, n), 'size of the operator')
    square = len(rows) == len(cols)
    for rep in range(2):
        x, y = rng.uniform(-1, 1, n), rng.uniform(-1, 1, m)
        X, Y = split(x, cols), split(y, rows)
        op.mult(as_petsc_nest(X), as_petsc_nest(Y))
        close(stack(Y), dense.dot(x), 1E-12, 'action', scale=100)
        close(stack(X), x, 1E-15, 'input')
        if square:
            X, Y = split(x, cols), split(y, rows)
            op.multTranspose(as_petsc_nest(Y), as_petsc_nest(X))
            close(stack(X), dense.T.dot(y), 1E-12, 'transpose action', scale=100)
    if rows == cols:
        ksp = PETSc.KSP().create()
        ksp.setOperators(op)
        pc = quiet(lambda: ii_PETScPreconditioner(AA, ksp))
        X, Y = split(x, cols), split(y, rows)
        pc.apply(as_petsc_nest(X), as_petsc_nest(Y))
        close(stack(Y), dense.dot(x), 1E-12, 'preconditioner', scale=100)
        pc.applyTranspose(as_petsc_nest(X), as_petsc_nest(Y))
        close(stack(Y), dense.T.dot(x), 1E-12, 'transpose preconditioner', scale=100)
        close(stack(X), x, 1E-15, 'input')
    env.unchanged()
    return f'{len(rows)}x{len(cols)}' if len(rows)*len(cols) > 1 else None


METHODS = {'scipy': (scipy_solve, ['cg', 'minres', 'gmres', 'bicgstab']), 'cbc': (cbc_solve, ['cg', 'minres', 'lgmres']), 'pyamg': (pyamg_solve, ['cg', 'gmres', 'fgmres'])}


@st.composite
def solves(draw):
    lib = draw(st.sampled_from(list(METHODS)))
    return dict(sizes=draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), lib=lib, method=draw(st.sampled_from(METHODS[lib][1])), M=draw(st.booleans()), guess=draw(st.booleans()),
                maxiter=draw(st.sampled_from([None, 200])), seed=draw(SEED))


def spd(n, seed):
    a = rand_dense(n, n, seed)
    return a.dot(a.T)/n + 2*np.eye(n)


def body_solve(s):
    sizes = s['sizes']
    n, cuts = len(sizes), np.cumsum([0]+sizes)
    rng = rng_of(s['seed'])
    dense = spd(sum(sizes), s['seed'])
    A = [[petsc_mat(dense[cuts[i]:cuts[i+1], cuts[j]:cuts[j+1]]) for j in range(n)] for i in range(n)]
    AA = block_mat(A)
    M = block_diag_mat([LU(A[i][i]) for i in range(n)]) if s['M'] else None
    x = np.round(rng.uniform(-1, 1, sum(sizes)), 2) + 0.005
    b = dense.dot(x)
    x0 = split(rng.uniform(-1, 1, len(x)) if s['guess'] else 0*x, sizes)
    bb = split(b, sizes)
    solver = METHODS[s['lib']][0]
    if s['lib'] != 'cbc' and M is not None:
        # Assumed to have all the blocks
        M = block_mat([[M[i, j] if i == j else petsc_mat(np.zeros((sizes[i], sizes[j]))) for j in range(n)] for i in range(n)])
    y, res = quiet(lambda: solver(s['method'], AA, bb, 1E-10, M, x0, maxiter=200 if s['lib'] == 'pyamg' else s['maxiter']))
    require(isinstance(y, block_vec) and [v.size() for v in y] == sizes, 'layout of solution')
    close(stack(y), x, 1E-6, 'solution', scale=10)
    close(stack(bb), b, 1E-15, 'rhs')
    for i in range(n):
        for j in range(n):
            close(A[i][j].array(), dense[cuts[i]:cuts[i+1], cuts[j]:cuts[j+1]], 1E-15, 'matrix')
    return f'{s["lib"]} {s["method"]}' if n > 1 else None


@st.composite
def singular(draw):
    return dict(sizes=draw(st.lists(st.integers(2, 4), min_size=1, max_size=3)), seed=draw(SEED), k=draw(st.integers(1, 2)), block=draw(st.booleans()), prec=draw(st.booleans()))


def body_singular(s):
    '''Operator with nullspace'''
    sizes = s['sizes'] if s['block'] else s['sizes'][:1]
    n, cuts = len(sizes), np.cumsum([0]+sizes)
    N = sum(sizes)
    rng = rng_of(s['seed'])
    k = min(s['k'], N-1)
    Q, _ = np.linalg.qr(rng.uniform(-1, 1, (N, k)))
    P = np.eye(N)-Q.dot(Q.T)
    dense = P.dot(spd(N, s['seed'])).dot(P)
    dense = 0.5*(dense+dense.T)
    parts = [[petsc_mat(dense[cuts[i]:cuts[i+1], cuts[j]:cuts[j+1]]) for j in range(n)] for i in range(n)]
    x = P.dot(rng.uniform(-1, 1, N))
    b = dense.dot(x)
    if s['block']:
        AA, Z = block_mat(parts), [split(q, sizes) for q in Q.T]
        if n > 1 or True:
            W = [None]*n
            Z = BlockNullspace(W, Z) if rng.randint(2) else Z
        rhs, y = split(b, sizes), split(0*b, sizes)
        vec = as_petsc_nest
    else:
        AA, Z = parts[0][0], [vector(q) for q in Q.T]
        rhs, y = vector(b), vector(0*b)
        vec = lambda v: df.as_backend_type(v).vec()
    op = quiet(lambda: ii_PETScOperator(AA, Z))
    Zp = op.getNullSpace()
    require(not Zp.hasConstant() and len(Zp.getVecs()) == k, 'vectors of the nullspace')
    # It is used
    w = rng.uniform(-1, 1, N)
    wv = split(w, sizes) if s['block'] else vector(w)
    Zp.remove(vec(wv))
    close(stack(wv), P.dot(w), 1E-10, 'removal of nullspace')
    ksp = PETSc.KSP().create()
    ksp.setOperators(op)
    ksp.setType('gmres')  # Robust with respect to exact convergence
    ksp.setTolerances(rtol=1E-13, atol=1E-14, max_it=200)
    if s['prec']:
        # Positive definite
        D = block_diag_mat([petsc_mat(spd(m, s['seed']+i)) for i, m in enumerate(sizes)])
        quiet(lambda: ii_PETScPreconditioner(D if s['block'] else D[0, 0], ksp))
    else:
        ksp.pc.setType('none')
    ksp.solve(vec(rhs), vec(y))
    close(stack(y), x, 1E-6, 'solution', scale=10)
    return ('block' if s['block'] else 'single') + f' {k}'


@st.composite
def pcs(draw):
    return dict(n=draw(st.integers(1, 5)), seed=draw(SEED), type=draw(st.sampled_from(['lu', 'cholesky', 'jacobi'])), other=draw(st.integers(1, 3)))


def body_pc(s):
    '''PETSc preconditioner in a block'''
    n, m = s['n'], s['other']
    a, c = spd(n, s['seed']), spd(m, s['seed']+1)
    A, C = petsc_mat(a), petsc_mat(c)
    pc = PETSc.PC().create()
    pc.setType(s['type'])
    pc.setOperators(df.as_backend_type(A).mat())
    pc.setUp()
    B = BlockPC(pc)
    BB = block_diag_mat([B, C])
    ref = np.diag(1./np.diag(a)) if s['type'] == 'jacobi' else np.linalg.inv(a)
    rng = rng_of(s['seed'])
    results = []
    for rep in range(3):
        x = rng.uniform(-1, 1, n+m)
        X = split(x, [n, m])
        y = BB*X
        results.append((y, np.hstack([ref.dot(x[:n]), c.dot(x[n:])])))
        close(stack(X), x, 1E-15, 'input')
    for y, r in results:
        close(stack(y), r, 1E-10, 'preconditioner', scale=10)
    require(B.create_vec(0).size() == n and B.create_vec(1).size() == n, 'sizes')
    return s['type']


SUBCHECKS = [Sub('operators', operators(), body_operators, quick=200, thorough=3000, chunks=3),
             Sub('solve', solves(), body_solve, quick=150, thorough=2500, chunks=2),
             Sub('singular', singular(), body_singular, quick=80, thorough=1200, chunks=2),
             Sub('pc', pcs(), body_pc, quick=60, thorough=600)]
