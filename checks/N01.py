'''Derivatives of residuals'''
from zoo import *
from xii.nonlin.jacobian import ii_derivative, block_jacobian

RULE = ('Case = (world of reduction operators; unknowns in the domain and the target of an operator and in an extra space; residuals that are polynomials of degree at most 4 in the unknowns, their derivatives and reductions; direction). '
        'Non-trivial: the Jacobian is not zero and depends on the state.')
ASSUMPTIONS = ['ii_assemble of functionals (A04)', 'five point differences are exact for polynomials of degree at most 4']


def tensor(A, shape):
    A = ii_assemble(A) if not isinstance(A, (int, float)) else A
    if isinstance(A, (int, float)):
        require(A == 0, 'number in Jacobian')
        return np.zeros(shape)
    return np.array(ii_convert(A).array())


def body(s):
    world = World(dict(kind=s['kind'], mesh=s['mesh'], seed=s['seed']))
    rng = rng_of(s['layout'])
    names = [n for n in sorted(world.ops) if n.startswith(s['family']) and world.ops[n].fun]
    name = names[s['op'] % len(names)]
    op = world.ops[name]
    same = [n for n in names if world.ops[n].mesh.id() == op.mesh.id() and world.ops[n].V == op.V and world.ops[n].T == op.T]
    ops = [op, world.ops[same[rng.randint(len(same))]]]
    W = [op.V, op.T, df.FunctionSpace(op.V.mesh(), 'CG', 1)]
    foos = [rand_fun(V, s['layout']+i) for i, V in enumerate(W)]
    dirs = [rand_fun(V, s['layout']+10+i) for i, V in enumerate(W)]
    u, p, z = foos
    meshV, meshT = op.V.mesh().id(), op.mesh.id()
    k = rand_fun(df.FunctionSpace(op.V.mesh(), 'DG', 0), s['layout']+20)
    expr = df.Expression('1+c*x[0]', c=0.5, degree=1)
    const = df.Constant(0.75)
    # One or more reduced coefficients which share u
    Ru = [o.apply(u) for o in ops] + [op.apply(u)]

    def sc(t):
        '''Some component'''
        return t if t.ufl_shape == () else t[0] + [1, -1][rng.randint(2)]*t[1]

    def product(things, deg):
        '''Monomials of degree at most deg'''
        out = 0
        things = list(map(sc, things))
        for _ in range(rng.randint(1, 3)):
            term = const*float(np.round(rng.uniform(0.25, 1), 2))*[1, -1][rng.randint(2)]
            for _ in range(rng.randint(0, deg+1)):
                t = things[rng.randint(len(things))]
                term = term*(t**2 if rng.randint(4) == 0 else t) if deg <= 2 else term*t
            out = out + term
        return out

    def over_target(v):
        '''Integrand with reduced coefficients; mean u mixed with u'''
        things = Ru + [p]
        if meshV == meshT:
            things = things + [u, z, u.dx(0) + u]
        return product(things, 2)*(expr if rng.randint(2) else 1)*v*op.dx

    def over_domain(v):
        gz = df.inner(df.grad(z), df.grad(z))
        return product([u, z, u.dx(0) + u, z.dx(0), k, df.CellVolume(op.V.mesh())**0], 4)*v*df.dx(domain=op.V.mesh()) + (gz*v*df.dx(domain=op.V.mesh()) if rng.randint(2) else 0*v*df.dx(domain=op.V.mesh()))

    def residual(i):
        v = df.TestFunction(W[i])
        if i == 0:
            f = over_target(sc(op.apply(v)))
            v = sc(v)
            return f + over_domain(v) if rng.randint(2) else f
        v = sc(v)
        if i == 1:
            return over_target(v) + (over_target(v) if rng.randint(2) else 0*v*op.dx)
        return over_domain(v)

    order = list(map(int, rng.permutation(3)[:rng.randint(1, 4)]))
    bf, xs, ds = [residual(i) for i in order], [foos[i] for i in order], [dirs[i] for i in order]
    sizes = [W[i].dim() for i in order]
    # Nonlinear depends on what appears there
    J = block_jacobian(bf, xs)
    require(len(J) == len(bf) and all(len(r) == len(xs) for r in J), 'layout of Jacobian')
    x0 = [arr(x.vector()) for x in foos]

    def set_(t, j):
        xs[j].vector().set_local(x0[order[j]] + t*arr(ds[j].vector()))

    label = None
    for i, L in enumerate(bf):
        for j in range(len(xs)):
            A = tensor(J[i][j], (sizes[i], sizes[j]))
            mine = A@arr(ds[j].vector())
            single = ii_derivative(L, xs[j])
            close(tensor(single, (sizes[i], sizes[j])), A, what='ii_derivative vs block Jacobian')
            values = {}
            for t in (-2, -1, 1, 2):
                set_(t, j)
                values[t] = arr(ii_assemble(L))
            # The form follows the state
            A2 = tensor(J[i][j], (sizes[i], sizes[j]))
            set_(0, j)
            expected = (values[-2] - 8*values[-1] + 8*values[1] - values[2])/12
            scale = 100*max(1, *(np.max(np.abs(x)) for x in values.values()))
            close(mine, expected, what=f'{name}: derivative of residual {order[i]} wrt unknown {order[j]}', scale=scale, tol=1E-10)
            if np.max(np.abs(A)) > 1E-8 and np.max(np.abs(A2-A)) > 1E-8:
                label = '%s %s' % (s['kind'], s['family'])
    # Misuse
    other = df.TestFunction(df.FunctionSpace(op.V.mesh(), 'DG', 2))
    bad = sc(u)*other*df.dx(domain=op.V.mesh()) if op.V.mesh().id() == op.V.mesh().id() else None
    raises((AssertionError, ValueError), lambda: block_jacobian([bad]+bf[1:], xs), 'residual with other test function')
    if len(xs) > 1:
        raises((AssertionError, ValueError), lambda: block_jacobian(bf[1:], xs), 'not square')
    raises((AssertionError, ValueError), lambda: ii_derivative(bf[0], Ru[0]), 'derivative wrt reduced coefficient')
    return label


def cases(kind, family):
    mesh = {'flat': mesh2d(3), 'curve': mesh2d(1, refine=False),
            'space': st.fixed_dictionaries(dict(k=st.just('cube'), n=st.just([2, 2, 2]), jit=st.none() | SEED, aff=st.integers(0, 3), refine=st.none()))}[kind]
    return st.fixed_dictionaries(dict(kind=st.just(kind), family=st.just(family), mesh=mesh, seed=SEED, op=st.integers(0, 200), layout=SEED))


FAMILIES = {'flat': ['trace CG1', 'trace vCG1', 'trace DG1', 'ttrace', 'smean', 'mean', 'restrict', 'inject', 'patch'],
            'space': ['average', 'trace CG1'],
            'curve': ['point', 'grad']}

SUBCHECKS = [Sub('%s-%s' % (kind, f.replace(' ', '')), cases(kind, f), body, quick=5, thorough=250)
             for kind in FAMILIES for f in FAMILIES[kind]]
