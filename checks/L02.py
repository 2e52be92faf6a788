'''Dirichlet conditions for block systems'''
from xii import *
from la import *
from xii.linalg.bc_apply import as_block

RULE = ('Case = (block system of random sparse matrices, numbers and zero blocks, or a single matrix; conditions as DirichletBC objects on random spaces, dictionaries of dof values, lists of these, '
        'sharing dofs, possibly empty; diagonal value, variant). Non-trivial: at least one dof is constrained.')
ASSUMPTIONS = ['numpy dense elimination', 'DirichletBC.get_boundary_values of dolfin', 'of several conditions for one dof the last is used (as in dolfin)']

ELM = {'CG1': ('CG', 1), 'CG2': ('CG', 2), 'DG0': ('DG', 0), 'vCG1': ('CG', 1)}


@st.composite
def system(draw):
    n = draw(st.integers(1, 3))
    return dict(spaces=draw(st.lists(st.sampled_from(list(ELM)), min_size=n, max_size=n)), nx=draw(st.integers(1, 3)),
                blocks=[[draw(st.sampled_from(['mat', 'mat', 'mat', 'zero', 'num'])) for _ in range(n)] for _ in range(n)],
                seed=draw(SEED),
                # Of each block
                bcs=[draw(st.lists(st.tuples(st.sampled_from(['bc', 'dict', 'bc', 'none', 'const']), SEED).map(list), min_size=draw(st.integers(0, 1)), max_size=3)) for _ in range(n)],
                how=draw(st.sampled_from(['list', 'dict', 'flat'])), single=draw(st.booleans()) and n == 1,
                diag=draw(st.sampled_from([1., 2., -3., 0.25])), symmetric=draw(st.booleans()),
                rhs=draw(st.booleans()), apply_b=draw(st.booleans()), defaults=draw(st.booleans()))


def space(s, i):
    mesh = df.UnitSquareMesh(s['nx'], 2)
    elm, deg = ELM[s['spaces'][i]]
    return (df.VectorFunctionSpace if s['spaces'][i].startswith('v') else df.FunctionSpace)(mesh, elm, deg)


def conditions(V, specs, time):
    '''bc objects, [(dof, value)]; constants are functions of time'''
    bcs, changes = [], []
    for kind, seed in specs:
        rng = rng_of(seed)
        mesh = V.mesh()
        vector_valued = V.ufl_element().value_shape() != ()
        if kind in ('bc', 'const'):
            if V.ufl_element().family() == 'Discontinuous Lagrange':
                bc = df.DirichletBC(V, df.Constant(rng.uniform(-2, 2)), 'x[0] < %g' % rng.uniform(), 'pointwise')
            else:
                c = np.round(rng.uniform(-2, 2, 2 if vector_valued else 1), 2)
                value = df.Constant(tuple(c) if vector_valued else c[0])
                where = ['on_boundary', 'near(x[0], 0)', 'near(x[1], 1) && on_boundary', 'near(x[0], 5)'][rng.randint(4)]
                if kind == 'const' and vector_valued and rng.randint(2):
                    bc = df.DirichletBC(V.sub(1), df.Constant(c[0]), where)
                else:
                    bc = df.DirichletBC(V, value, where)
                    changes.append((value, c))
        else:
            dofs = rng.choice(V.dim(), rng.randint(0, 1+min(4, V.dim())), replace=False) if kind == 'dict' else []
            bc = {int(d): float(np.round(rng.uniform(-2, 2), 2)) for d in dofs}
        bcs.append(bc)
    return bcs, changes


def known(bcs):
    return [(d, v) for bc in bcs for d, v in (bc.items() if isinstance(bc, dict) else bc.get_boundary_values().items())]


def reference(a, b, fixed, diag, symmetric):
    a, b = np.array(a), np.array(b)
    x = np.zeros(len(b))
    for d, v in fixed.items():
        x[d] = v
    D = sorted(fixed)
    if symmetric:
        b = b - a.dot(x)
        a[:, D] = 0
    a[D, :] = 0
    for d in D:
        a[d, d] = diag
        b[d] = diag*x[d]
    return a, b


def body(s):
    n = len(s['spaces'])
    W = [space(s, i) for i in range(n)]
    dims = [V.dim() for V in W]
    offsets = np.cumsum([0]+dims)
    rng = rng_of(s['seed'])
    env = Env()
    a, A = [[None]*n for _ in range(n)], [[None]*n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            kind = s['blocks'][i][j]
            if i == j and all(s['blocks'][i][k] != 'mat' for k in range(n)) or all(s['blocks'][k][j] != 'mat' for k in range(n)) and i == j:
                kind = 'mat'
            if kind == 'num' and i != j:
                kind = 'zero'
            if kind == 'mat':
                v = rand_dense(dims[i], dims[j], rng.randint(10**6), 0.4)
                if i == j:
                    # PETSc wants the diagonal to be stored
                    np.fill_diagonal(v, 3.)
                a[i][j], A[i][j] = v, env.leaf(v, petsc_mat(v, ['petsc', 'matrix'][rng.randint(2)]))
            else:
                c = 0 if kind == 'zero' else 2.5
                a[i][j], A[i][j] = c*np.eye(dims[i], dims[j]), c
    rhs = [np.round(rng.uniform(-1, 1, d), 2) if s['rhs'] else np.zeros(d) for d in dims]
    b = [vector(x) for x in rhs]

    pairs = [conditions(V, specs, 0) for V, specs in zip(W, s['bcs'])]
    bcs = [p[0] for p in pairs]
    fixed = lambda: {int(offsets[i]+d): v for i in range(n) for d, v in known(bcs[i])}
    any_bcs = any(len(B) for B in bcs)

    single = s['single']
    if s['how'] == 'dict':
        arg = {i: B for i, B in enumerate(bcs) if len(B)}
    elif s['how'] == 'flat':
        # Single condition is given without the list
        arg = [B[0] if len(B) == 1 else B for B in bcs]
    else:
        arg = bcs
    if single:
        if s['how'] != 'dict':
            arg = arg[0]
        if isinstance(arg, dict) and s['how'] != 'dict':
            arg = [arg]
        AA, bb = A[0][0], b[0]
    else:
        AA, bb = block_mat(A), block_vec(b)

    dense, dense_b = np.block(a), np.hstack(rhs)
    kw = dict() if s['defaults'] else dict(diag_val=s['diag'], symmetric=s['symmetric'])
    diag, symmetric = (1., True) if s['defaults'] else (s['diag'], s['symmetric'])
    if s['apply_b']:
        kw['return_apply_b'] = True
    if not any_bcs:
        kw = {k: v for k, v in kw.items()}
    has_rhs = s['rhs'] or s['apply_b'] or not any_bcs
    ans = apply_bc(AA, bb if has_rhs else None, arg, **kw)
    require(len(ans) == (3 if s['apply_b'] else 2), f'got {len(ans)} results')

    def check(A_, b_, b0, what):
        A1, b1 = reference(dense, b0, fixed(), diag, symmetric)
        if A_ is not None:
            require(is_mat(A_) if single else isinstance(A_, block_mat) and A_.blocks.shape == (n, n), f'{what}: type of the matrix {type(A_)}')
            got = value(A_, *dense.shape) if single else np.block([[value(A_[i, j], dims[i], dims[j]) for j in range(n)] for i in range(n)])
            close(got, A1, 1E-13, what+' matrix', scale=10)
        if b_ is None and not has_rhs and not fixed():
            return A1, b1
        require(isinstance(b_, df.GenericVector) if single else isinstance(b_, block_vec) and len(b_) == n, f'{what}: type of the vector')
        got = arr(b_) if single else np.hstack([arr(bi) for bi in b_])
        if not single:
            require([bi.size() for bi in b_] == dims, 'sizes of the blocks of the vector')
        close(got, b1, 1E-12, what+' vector', scale=100)
        return A1, b1

    A1, b1 = check(ans[0], ans[1], dense_b, 'system')
    # Inputs are as they were
    if any_bcs:
        env.unchanged()
        for x, bi in zip(rhs, b):
            close(arr(bi), x, 1E-15, 'rhs changed')
    # Same rhs with new boundary values
    if s['apply_b']:
        for k in range(3):
            b0 = dense_b if k == 0 else np.round(rng.uniform(-1, 1, len(dense_b)), 2)
            for _, changes in pairs:
                for value_, c in changes:
                    c = c*(1+k) if k else c
                    value_.assign(df.Constant(tuple(c) if len(c) > 1 else float(c[0])))
            parts = [vector(x) for x in np.split(b0, offsets[1:-1])]
            new = ans[2](parts[0] if single else block_vec(parts))
            check(None, new, b0, f'update {k}')
            # In place
            close(np.hstack([arr(x) for x in parts]), np.hstack([arr(x) for x in ([new] if single else new)]), 1E-15, 'update in place')
    return ('single' if single else f'{n} blocks') if fixed() else None


@st.composite
def splits(draw):
    n = draw(st.integers(2, 12))
    return dict(n=n, perm=draw(st.permutations(list(range(n)))), cuts=sorted(draw(st.sets(st.integers(1, n-1), min_size=0, max_size=3))), seed=draw(SEED),
                how=draw(st.sampled_from(['list', 'array'])), kind=draw(st.sampled_from(['petsc', 'matrix'])))


def body_split(s):
    '''Selection of rows and columns'''
    n = s['n']
    idx = [np.array(x) for x in np.split(np.array(s['perm']), s['cuts'])]
    a = rand_dense(n, n, s['seed'])
    x = rng_of(s['seed']).uniform(-1, 1, n)
    arg = [list(map(int, i)) for i in idx] if s['how'] == 'list' else idx
    bb = as_block(vector(x, 'petsc' if s['kind'] == 'petsc' else 'vector'), arg)
    require(isinstance(bb, block_vec) and len(bb) == len(idx), 'blocks')
    for i, b in zip(idx, bb):
        close(arr(b), x[i], 1E-15, 'piece of vector')
    AA = as_block(petsc_mat(a, s['kind']), arg)
    for i, ri in enumerate(idx):
        for j, cj in enumerate(idx):
            close(value(AA[i, j], len(ri), len(cj)), a[np.ix_(ri, cj)], 1E-15, 'piece of matrix')
    return f'{len(idx)}' if len(idx) > 1 else None


SUBCHECKS = [Sub('system', system(), body, quick=240, thorough=3000, chunks=6),
             Sub('split', splits(), body_split, quick=50, thorough=500)]
