'''PETSc nested systems'''
from xii import *
from la import *
from block.algebraic.petsc import LU, SUPERLU_LU

BOOST = 10
RULE = ('Case = (block matrix of random matrices, composites, numbers and zero blocks with its vectors and functions; block diagonal preconditioner with exact inverses, sums of them, and groups). '
        'Non-trivial: at least 2 blocks.')
ASSUMPTIONS = ['PETSc', 'numpy']


def nested(N):
    '''Dense of nested matrix'''
    m, n = N.getSize()
    ans = np.zeros((m, n))
    I, J = N.getNestISs()
    for i, rows in enumerate(I):
        for j, cols in enumerate(J):
            S = N.getNestSubMatrix(i, j)
            if S.handle:
                ans[np.ix_(rows.array, cols.array)] = df.PETScMatrix(S).array()
    return ans


@st.composite
def systems(draw):
    rows = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    cols = rows if draw(st.integers(0, 2)) else draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    return dict(rows=rows, cols=cols, kinds=[[draw(st.sampled_from(['mat', 'mat', 'sum', 'product', 'T', 'zero', 'zeros', 'num'])) for _ in cols] for _ in rows], seed=draw(SEED))


def body_matrix(s):
    rows, cols = s['rows'], s['cols']
    rng = rng_of(s['seed'])
    env = Env()
    leaf = lambda a: env.leaf(a, petsc_mat(a, ['petsc', 'matrix'][rng.randint(2)]))
    a, A, sized = [], [], []
    for i, m in enumerate(rows):
        a.append([]), A.append([]), sized.append([])
        for j, n in enumerate(cols):
            kind = s['kinds'][i][j]
            x, y = rand_dense(m, n, rng.randint(10**6)), rand_dense(m, n, rng.randint(10**6))
            if kind == 'num' and m != n:
                kind = 'zero'
            if i == j and kind == 'zero' or (j == 0 and kind not in ('mat', 'T')) or (i == 0 and kind not in ('mat', 'T')):
                kind = 'num' if m == n and kind == 'num' and i and j else 'mat'
            if kind == 'zeros' and i == j:
                kind = 'mat'
            if kind == 'mat':
                # Shape is to be known
                if not np.any(x):
                    x[0, -1] = 1.5
                v, V = x, leaf(x)
            elif kind == 'sum':
                v, V = 2*x-y, 2*leaf(x)-leaf(y)
            elif kind == 'product':
                z = rand_dense(n, n, rng.randint(10**6))
                v, V = x.dot(z), leaf(x)*leaf(z)
            elif kind == 'T':
                if not np.any(x):
                    x[0, -1] = -2
                v, V = x, leaf(x.T).T
            elif kind == 'zero':
                v, V = 0*x, [0, 0.][rng.randint(2)]
            elif kind == 'zeros':
                v, V = 0*x, leaf(0*x)
            else:
                c = [2, -0.5, 1, 0][rng.randint(4)]
                v, V = c*np.eye(m), c
            a[-1].append(v), A[-1].append(V), sized[-1].append(kind in ('mat', 'T', 'sum', 'product'))
    N = nest(block_mat(A))
    dense = np.block(a)
    require(N.getType() == 'nest', 'type')
    require(tuple(N.getSize()) == dense.shape, f'size {N.getSize()} expected {dense.shape}')
    I, J = N.getNestISs()
    require([i.getSize() for i in I] == rows and [j.getSize() for j in J] == cols, 'block sizes')
    close(nested(N), dense, 1E-12, 'entries', scale=100)
    # Action
    x = np.round(rng.uniform(-1, 1, sum(cols)), 2)
    xb = block_vec([vector(p) for p in np.split(x, np.cumsum(cols)[:-1])])
    yb = block_vec([vector(np.zeros(m)) for m in rows])
    N.mult(nest(xb), nest(yb))
    close(np.hstack([arr(y) for y in yb]), dense.dot(x), 1E-12, 'action', scale=100)
    close(np.hstack([arr(y) for y in xb]), x, 1E-15, 'input vector')
    env.unchanged('nest')
    return f'{len(rows)}x{len(cols)}' if len(rows)*len(cols) > 1 else None


@st.composite
def solves(draw):
    n = draw(st.integers(1, 3))
    return dict(spaces=draw(st.lists(st.sampled_from(['CG1', 'DG0', 'CG2', 'vCG1']), min_size=n, max_size=n)), nx=draw(st.integers(1, 2)), seed=draw(SEED),
                pc=draw(st.lists(st.sampled_from(['LU', 'SuperLU', 'sum']), min_size=n, max_size=n)),
                offsets=sorted(draw(st.sets(st.integers(1, n-1), max_size=n-1)) if n > 1 else [])+[n], group=draw(st.booleans()))


def spd(n, seed):
    a = rand_dense(n, n, seed)
    return a.dot(a.T)/n + np.eye(n)


def body_solve(s):
    mesh = df.UnitSquareMesh(s['nx'], 1)
    W = [(df.VectorFunctionSpace if e[0] == 'v' else df.FunctionSpace)(mesh, e[-3:-1], int(e[-1])) for e in s['spaces']]
    n = len(W)
    dims = [V.dim() for V in W]
    cuts = np.cumsum([0]+dims)
    rng = rng_of(s['seed'])
    full = spd(sum(dims), s['seed'])
    AA = block_mat([[petsc_mat(full[cuts[i]:cuts[i+1], cuts[j]:cuts[j+1]]) for j in range(n)] for i in range(n)])
    b = np.round(rng.uniform(-1, 1, sum(dims)), 2)
    bb = block_vec([vector(p) for p in np.split(b, cuts[1:-1])])
    # Solution is in the functions
    wh = ii_Function(W)
    N, rhs = nest(AA), nest(bb)
    require(rhs.getSize() == len(b), 'size of the vector')
    close(rhs.getArray(), b, 1E-15, 'vector')
    ksp = PETSc.KSP().create()
    ksp.setOperators(N)
    ksp.setType('gmres')
    ksp.pc.setType('none')
    ksp.setTolerances(rtol=1E-13, atol=1E-14, max_it=500)
    ksp.setGMRESRestart(500) if hasattr(ksp, 'setGMRESRestart') else None
    ksp.solve(rhs, wh.petsc_vec())
    exact = np.linalg.solve(full, b)
    got = np.hstack([arr(f.vector()) for f in wh])
    close(got, exact, 1E-7, 'solution', scale=10*max(1, np.max(np.abs(exact))))
    for f, p in zip(wh, np.split(exact, cuts[1:-1])):
        close(arr(f.vector()), p, 1E-7, 'component', scale=10*max(1, np.max(np.abs(exact))))
    close(np.hstack([arr(x) for x in bb]), b, 1E-15, 'rhs')
    # Vector is a view
    bb[n-1][0] = 7.
    b[cuts[n-1]] = 7.
    close(rhs.getArray(), b, 1E-15, 'vector is connected to the blocks')

    # Preconditioner
    offsets = s['offsets'] if s['group'] and n > 1 else list(range(1, n+1))
    groups = [list(range(i, j)) for i, j in zip([0]+offsets[:-1], offsets)]
    ops, invs, keep = [], [], []
    for k, g in enumerate(groups):
        lo, hi = cuts[g[0]], cuts[g[-1]+1]
        m = hi - lo
        parts = [spd(m, rng.randint(10**6)) for _ in range(2 if s['pc'][k] == 'sum' and n > 1 else 1)]
        mats = [petsc_mat(p) for p in parts]
        keep.extend(mats)
        make = LU if s['pc'][k] != 'SuperLU' else LU
        op = [make(M) for M in mats]
        ops.append(op[0] if len(op) == 1 else block_add(*op))
        invs.append((lo, hi, sum(map(np.linalg.inv, parts))))
    BB = block_diag_mat(ops)
    if s['group'] and n > 1:
        R = ReductionOperator(list(offsets), W)
        BB = R.T*BB*R
    if len(groups) == 1 and n > 1:
        return None
    ksp = PETSc.KSP().create()
    ksp.setOperators(N)
    ksp.setType('preonly')
    pc = ksp.getPC()
    pc.setType('fieldsplit')
    pc.setFieldSplitType(PETSc.PC.CompositeType.ADDITIVE)
    Bmat = pc_nest(pc, BB, N)
    ksp.setOperators(N, Bmat)
    ksp.setUp()
    y = ii_Function(W)
    ksp.solve(rhs, y.petsc_vec())
    ref = np.zeros(sum(dims))
    for lo, hi, inv in invs:
        ref[lo:hi] = inv.dot(b[lo:hi])
    close(np.hstack([arr(f.vector()) for f in y]), ref, 1E-9, 'preconditioner', scale=10*max(1, np.max(np.abs(ref))))
    close(nested(N), full, 1E-13, 'matrix changed', scale=10)
    return f'{n} blocks' + ('' if len(groups) == n else ' grouped') if n > 1 else None


SUBCHECKS = [Sub('matrix', systems(), body_matrix, quick=200, thorough=3000, chunks=3),
             Sub('solve', solves(), body_solve, quick=60, thorough=800, chunks=3)]
