'''Block functions and operators rearranging blocks'''
from xii import *
from la import *
from xii.linalg.block_utils import RearangeOperator, RegroupOperator, block_diag_mat, VectorizedOperator, BlockPC
from xii.linalg.function import as_petsc_nest

BOOST = 4
RULE = ('Case = (1-4 function spaces of varied dimensions, values of block vectors; sequence of changes of components of the block function; or grouping/permutation of blocks, selection, block operator). '
        'Non-trivial: there are at least 2 blocks.')
ASSUMPTIONS = ['dolfin Function/Vector objects', 'numpy']

ELM = {'CG1': ('CG', 1), 'CG2': ('CG', 2), 'DG0': ('DG', 0), 'DG1': ('DG', 1), 'R': ('R', 0)}
NAMES = st.lists(st.sampled_from(list(ELM) + ['vCG1', 'MIX']), min_size=1, max_size=4)


def spaces(s):
    mesh = df.UnitSquareMesh(s['nx'], 1)
    ans = []
    for name in s['spaces']:
        if name == 'vCG1':
            ans.append(df.VectorFunctionSpace(mesh, 'CG', 1))
        elif name == 'MIX':
            ans.append(df.FunctionSpace(mesh, df.MixedElement([df.FiniteElement('CG', df.triangle, 1), df.FiniteElement('DG', df.triangle, 0)])))
        else:
            ans.append(df.FunctionSpace(mesh, *ELM[name]))
    return ans


def draw_values(V, rng):
    return np.round(rng.uniform(-2, 2, V.dim()), 2)


OPS = ['component', 'component+', 'block', 'block+', 'petsc', 'dolfin', 'randomize', 'assign', 'scale', 'interpolate']


@st.composite
def functions(draw):
    names = draw(NAMES)
    return dict(spaces=names, nx=draw(st.integers(1, 2)), how=draw(st.sampled_from(['none', 'functions', 'vectors', 'blockvec'])), seed=draw(SEED),
                ops=draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 3), SEED).map(list), max_size=6)))


def body_functions(s):
    W = spaces(s)
    rng = rng_of(s['seed'])
    n = len(W)
    model = [draw_values(V, rng) for V in W]
    given = None
    if s['how'] == 'none':
        wh = ii_Function(W)
        model = [0*m for m in model]
    elif s['how'] == 'functions':
        given = []
        for V, m in zip(W, model):
            f = df.Function(V)
            f.vector().set_local(m)
            given.append(f)
        wh = ii_Function(W, given)
    else:
        given = [vector(m, 'vector') for m in model]
        if s['how'] == 'blockvec':
            given = block_vec(given)
        wh = ii_Function(W, given)

    def look(what):
        require(len(wh) == n and len(list(wh)) == n, 'length')
        for i in range(n):
            close(arr(wh[i].vector()), model[i], 1E-13, f'{what}: component {i}')
            require(wh[i].function_space().dim() == W[i].dim() and wh[i].function_space().ufl_element() == W[i].ufl_element(), 'space of the component')
        close(np.hstack([arr(f.vector()) for f in wh]), np.hstack(model), 1E-13, what+': iteration')
        close(np.hstack([arr(x) for x in wh.block_vec()]), np.hstack(model), 1E-13, what+': block_vec')
        close(np.hstack([arr(x) for x in wh.vectors()]), np.hstack(model), 1E-13, what+': vectors')
        close(wh.petsc_vec().getArray(), np.hstack(model), 1E-13, what+': petsc_vec')
        require(wh.vector().size() == sum(map(len, model)), 'size')
        close(as_petsc_nest(wh.block_vec()).norm(), np.linalg.norm(np.hstack(model)), 1E-12, what+': norm')
        close(wh.vector().norm('l2'), np.linalg.norm(np.hstack(model)), 1E-12, what+': norm of vector', scale=10)
        if given is not None and not replaced:
            # These are the functions/vectors that were passed
            for i in range(n):
                v = given[i].vector() if s['how'] == 'functions' else given[i]
                close(arr(v), model[i], 1E-13, f'{what}: given component {i}')
        require(wh.function_space() == W if isinstance(wh.function_space(), list) else True, 'spaces')
        raises((AssertionError, IndexError), lambda: wh[n], 'component out of range')

    replaced = False
    look('new')
    for op, i, seed in s['ops']:
        i = i % n
        r = rng_of(seed)
        new = draw_values(W[i], r)
        if op == 'component':
            wh[i].vector().set_local(new)
            model[i] = new
        elif op == 'component+':
            wh[i].vector()[:] += vector(new)
            model[i] = model[i] + new
        elif op == 'block':
            wh.block_vec()[i].set_local(new)
            model[i] = new
        elif op == 'block+':
            new = [draw_values(V, r) for V in W]
            b = wh.block_vec()
            b += block_vec([vector(x) for x in new])
            model = [m+x for m, x in zip(model, new)]
        elif op == 'petsc':
            # As done by solvers
            new = [draw_values(V, r) for V in W]
            wh.petsc_vec().axpy(2., as_petsc_nest(block_vec([vector(x) for x in new])))
            model = [m+2*x for m, x in zip(model, new)]
        elif op == 'dolfin':
            v = wh.vector()
            v *= -2.
            model = [-2*m for m in model]
        elif op == 'scale':
            x = wh.petsc_vec()
            x.scale(0.5)
            model = [0.5*m for m in model]
        elif op == 'randomize':
            require(wh.randomize() is wh, 'randomize returns self')
            model = [arr(f.vector()) for f in wh]
            for f in wh:
                require(np.any(arr(f.vector()) != 0), 'randomize left zeros')
        elif op == 'assign':
            g = df.Function(W[i])
            g.vector().set_local(new)
            wh[i].assign(g)
            model[i] = new
            replaced = True
        elif op == 'interpolate':
            gs = []
            for j, V in enumerate(W):
                g = df.Function(V)
                g.vector().set_local(draw_values(V, r))
                if V.ufl_element().family() == 'Real':
                    g = wh[j].copy(deepcopy=True)
                gs.append(g)
            if any(V.ufl_element().family() == 'Real' for V in W):
                continue
            wh.interpolate(ii_Function(W, gs) if seed % 2 else gs)
            model = [arr(g.vector()) for g in gs]
            replaced = True
        look(op)
    return f'{n}' if n > 1 else None


@st.composite
def groups(draw):
    names = draw(NAMES)
    n = len(names)
    cuts = sorted(draw(st.sets(st.integers(1, n-1), max_size=n-1))) if n > 1 else []
    return dict(spaces=names, nx=draw(st.integers(1, 2)), offsets=cuts+[n], perm=draw(st.permutations(list(range(n)))), seed=draw(SEED), kind=draw(st.sampled_from(['petsc', 'vector'])))


def blocks_of(y):
    return list(y) if isinstance(y, block_vec) else [y]


def body_groups(s):
    W = spaces(s)
    n = len(W)
    rng = rng_of(s['seed'])
    xs = [draw_values(V, rng) for V in W]
    new = lambda: block_vec([vector(x, s['kind']) for x in xs])
    offsets = s['offsets']
    groups_ = [list(range(a, b)) for a, b in zip([0]+offsets[:-1], offsets)]
    cut = lambda g: np.hstack([xs[i] for i in g])

    def check_groups(R, groups_, what):
        b = new()
        y = R*b
        require(isinstance(y, block_vec) == (len(groups_) > 1), f'{what}: single block is not a block vector')
        Y = blocks_of(y)
        require([v.size() for v in Y] == [len(cut(g)) for g in groups_], f'{what}: sizes {[v.size() for v in Y]}')
        for g, v in zip(groups_, Y):
            close(df.as_backend_type(v).vec().getArray(), cut(g), 1E-15, f'{what}: values of group {g}')
        z = R.T*y
        require(isinstance(z, block_vec) and len(z) == n, f'{what}: transpose gives a block vector with as many blocks')
        for i in range(n):
            close(arr(z[i]), xs[i], 1E-15, f'{what}: transpose, block {i}')
        # Vectors which do not come from the operator
        flat = [vector(cut(g), s['kind']) for g in groups_]
        z = R.T*(block_vec(flat) if len(flat) > 1 else flat[0])
        for i in range(n):
            close(arr(z[i]), xs[i], 1E-15, f'{what}: transpose of flat vectors, block {i}')
        for i in range(n):
            close(arr(b[i]), xs[i], 1E-15, f'{what}: input changed')
        # Monolithic in
        y = R*vector(np.hstack(xs))
        for g, v in zip(groups_, blocks_of(y)):
            close(df.as_backend_type(v).vec().getArray(), cut(g), 1E-15, f'{what}: group {g} of monolithic vector')
        require([v.size() for v in R.create_vec(1)] == [len(x) for x in xs], f'{what}: create_vec(1)')
        require([v.size() for v in blocks_of(R.create_vec(0))] == [len(cut(g)) for g in groups_], f'{what}: create_vec(0)')
        for v in list(R.create_vec(1)) + blocks_of(R.create_vec(0)):
            require(v.norm('l2') == 0, 'new vector is zero')

    check_groups(ReductionOperator(list(offsets), W), groups_, 'reduction')
    perm = s['perm']
    pgroups = [[perm[i] for i in g] for g in groups_]
    check_groups(RearangeOperator(tuple(map(tuple, pgroups)), W), pgroups, 'rearange')

    # Operator on groups
    dims = [len(x) for x in xs]
    a = [[rand_dense(m, k, s['seed']+17*i+j) for j, k in enumerate(dims)] for i, m in enumerate(dims)]
    AA = block_mat([[petsc_mat(x) for x in row] for row in a])
    dense = np.block(a)
    for name, R, G in (('reduction', ReductionOperator(list(offsets), W), groups_), ('rearange', RearangeOperator(tuple(map(tuple, pgroups)), W), pgroups)):
        mats = [[petsc_mat(np.block([[a[i][j] for j in cg] for i in rg])) for cg in G] for rg in G]
        M = block_mat(mats) if len(G) > 1 else mats[0][0]
        z = (R.T)*(M*(R*new()))
        close(np.hstack([arr(v) for v in z]), dense.dot(np.hstack(xs)), 1E-12, f'{name}: operator on groups', scale=100)
    # As nested structure
    R = RegroupOperator(list(offsets), W)
    b = new()
    y = R*b
    for g, v in zip(groups_, blocks_of(y) if len(groups_) > 1 else [y]):
        require(isinstance(v, block_vec) == (len(g) > 1), 'regroup: blocks')
        parts = list(v) if len(g) > 1 else [v]
        for i, p in zip(g, parts):
            close(arr(p), xs[i], 1E-15, 'regroup')
        require(len(parts) == len(g), 'regroup: sizes')
    z = R.T*y
    require(isinstance(z, block_vec) and len(z) == n, 'regroup: transpose gives block vector')
    for i in range(n):
        close(arr(z[i]), xs[i], 1E-15, 'regroup: transpose')
    return f'{n} in {len(offsets)}' if n > 1 else None


@st.composite
def selections(draw):
    names = draw(NAMES)
    n = len(names)
    idx = draw(st.lists(st.integers(0, n-1), min_size=1, max_size=n, unique=True))
    return dict(spaces=names, nx=draw(st.integers(1, 2)), idx=idx, how=draw(st.sampled_from(['tuple', 'list', 'int'])), seed=draw(SEED))


def body_selections(s):
    W = spaces(s)
    n = len(W)
    rng = rng_of(s['seed'])
    xs = [draw_values(V, rng) for V in W]
    idx = s['idx'][:1] if s['how'] == 'int' else s['idx']
    R = SubSelectOperator(idx[0] if s['how'] == 'int' else (tuple(idx) if s['how'] == 'tuple' else idx), W)
    b = block_vec([vector(x) for x in xs])
    y = R*b
    require(isinstance(y, block_vec) == (len(idx) > 1), 'single block is not a block vector')
    for i, v in zip(idx, blocks_of(y)):
        close(arr(v), xs[i], 1E-15, f'selected {i}')
    require(len(blocks_of(y)) == len(idx), 'number of selected')
    z = R.T*y
    for i in range(n):
        close(arr(z[i]), xs[i] if i in idx else 0*xs[i], 1E-15, f'extended {i}')
        close(arr(b[i]), xs[i], 1E-15, 'input')
    # R*R.T = I, (Rx, y) = (x, R.T*y)
    ys = [draw_values(W[i], rng) for i in idx]
    yv = [vector(v) for v in ys]
    w = R.T*(block_vec(yv) if len(yv) > 1 else yv[0])
    close(sum(arr(w[i]).dot(xs[i]) for i in range(n)), sum(v.dot(xs[i]) for i, v in zip(idx, ys)), 1E-12, 'adjoint', scale=100)
    for v, u in zip(blocks_of(R*w), ys):
        close(arr(v), u, 1E-15, 'R*R.T')
    require([v.size() for v in R.create_vec(1)] == [len(x) for x in xs], 'create_vec(1)')
    require([v.size() for v in blocks_of(R.create_vec(0))] == [len(xs[i]) for i in idx], 'create_vec(0)')
    for v in list(R.create_vec(1)) + blocks_of(R.create_vec(0)):
        require(v.norm('l2') == 0, 'new vector is zero')
    return f'{len(idx)} of {n}' if n > 1 else None


@st.composite
def diagonals(draw):
    return dict(nx=draw(st.integers(1, 2)), n=draw(st.integers(1, 3)), how=draw(st.sampled_from(['list', 'vector', 'tensor', 'equal'])), seed=draw(SEED), elm=draw(st.sampled_from(['CG1', 'DG0', 'CG2'])),
                sum=draw(st.booleans()))


def body_diagonals(s):
    '''Same operator on each component'''
    mesh = df.UnitSquareMesh(s['nx'], 1)
    fam, deg = ELM[s['elm']]
    V = df.FunctionSpace(mesh, fam, deg)
    n = s['n']
    a = rand_dense(V.dim(), V.dim(), s['seed'])
    A = petsc_mat(a)
    if s['sum']:
        A, a = 2*A + A*A, 2*a + a.dot(a)
    rng = rng_of(s['seed'])
    if s['how'] in ('list', 'equal'):
        W = [V]*n if s['how'] == 'list' else [df.FunctionSpace(mesh, fam, deg) for _ in range(n)]
        D = VectorizedOperator(A, W)
        xs = [draw_values(V, rng) for _ in range(n)]
        for rep in range(2):
            y = D*block_vec([vector(x) for x in xs])
            for x, yi in zip(xs, y):
                close(arr(yi), a.dot(x), 1E-12, 'component', scale=1E3)
        require([v.size() for v in D.create_vec(1)] == [V.dim()]*n, 'create_vec')
        B = block_diag_mat([A]*n)
        for i in range(n):
            for j in range(n):
                require(B[i, j] is A if i == j else B[i, j] == 0, 'block diagonal')
        return 'list' if n > 1 else None
    W = df.VectorFunctionSpace(mesh, fam, deg, dim=n+1) if s['how'] == 'vector' else df.TensorFunctionSpace(mesh, fam, deg, shape=(n, 2))
    D = VectorizedOperator(A, W)
    old = None
    for rep in range(2):
        x = draw_values(W, rng)
        y = D*vector(x, 'vector')
        ref = np.zeros(W.dim())
        for j in range(W.num_sub_spaces()):
            dofs = W.sub(j).dofmap().dofs()
            ref[dofs] = a.dot(x[dofs])
        close(arr(y), ref, 1E-12, 'vectorized', scale=1E3)
        if old is not None:
            close(arr(old[0]), old[1], 1E-15, 'earlier result changed')
        old = y, arr(y)
    require(D.create_vec(1).size() == W.dim(), 'create_vec')
    raises((AssertionError, Exception), lambda: VectorizedOperator(petsc_mat(np.eye(V.dim()+1)), W), 'wrong size of the operator')
    return s['how']


SUBCHECKS = [Sub('functions', functions(), body_functions, quick=100, thorough=1500, chunks=3),
             Sub('groups', groups(), body_groups, quick=60, thorough=800, chunks=2),
             Sub('selections', selections(), body_selections, quick=60, thorough=800, chunks=2),
             Sub('diagonals', diagonals(), body_diagonals, quick=40, thorough=500)]
