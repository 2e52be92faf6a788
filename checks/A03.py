'''Trace on meshes which are not made of facets of the bulk mesh'''
from lib import *
from xii import *

RULE = ('Case = (bulk mesh, immersed mesh: straight/polygonal curve in 2d, planar/folded surface in 3d of random position and resolution, or facets of '
        'another mesh of the same domain; element; function: random dofs or polynomial; tags). Non-trivial: the trace is not constant.')
ASSUMPTIONS = ['dolfin evaluation of functions in a given cell and assembly on the immersed mesh are trusted',
               'nodes of the immersed mesh are inside of the bulk mesh; where functions jump any cell containing the node can provide the value']

ELM = {
    'CG1': (lambda c: df.FiniteElement('CG', c, 1), 1),
    'CG2': (lambda c: df.FiniteElement('CG', c, 2), 2),
    'DG0': (lambda c: df.FiniteElement('DG', c, 0), 0),
    'DG1': (lambda c: df.FiniteElement('DG', c, 1), 1),
    'vCG1': (lambda c: df.VectorElement('CG', c, 1), 1),
    'RT1': (lambda c: df.FiniteElement('RT', c, 1), 1),
    'mTH': (lambda c: df.MixedElement([df.VectorElement('CG', c, 2), df.FiniteElement('CG', c, 1)]), 2),
}
CONT = ('CG1', 'CG2', 'vCG1', 'mTH')


def build_mesh(x, cells, tdim):
    mesh = df.Mesh()
    ed = df.MeshEditor()
    ed.open(mesh, {1: 'interval', 2: 'triangle'}[tdim], tdim, x.shape[1])
    ed.init_vertices(len(x))
    for i, xi in enumerate(x):
        ed.add_vertex(i, xi)
    ed.init_cells(len(cells))
    for i, c in enumerate(cells):
        ed.add_cell(i, np.array(c, dtype='uintp'))
    ed.close()
    return mesh


def immersed(s, mesh, spec):
    '''Constructed in the reference square/cube and mapped with the affine map of the bulk mesh'''
    gdim = mesh.geometry().dim()
    rng = rng_of(s['imm'])
    how, n = s['how'], s['n']
    if how == 'facets':
        # Of another mesh of the same domain
        spec2 = dict(spec, n=[n]*gdim, jit=None, refine=None)
        other = mesh_of(spec2)
        f = df.MeshFunction('size_t', other, gdim-1, 0)
        df.DomainBoundary().mark(f, 1)
        if s['imm'] % 2:
            f.array()[:] = np.where(f.array() == 1, rng.randint(1, 3, len(f.array())), 0)
            return EmbeddedMesh(f, [1, 2])
        return EmbeddedMesh(f, 1)
    if gdim == 2:
        k = {'straight': 2, 'bent': 4}[how]
        pts = rng.uniform(0.02, 0.98, (k, 2))
        x = [pts[0]]
        for a, b in zip(pts[:-1], pts[1:]):
            for t in np.linspace(0, 1, n+1)[1:]:
                x.append(a*(1-t) + b*t)
        x = np.array(x)
        cells = [(i, i+1) for i in range(len(x)-1)]
        tdim = 1
    else:
        o = rng.uniform(0.3, 0.4, 3)
        Q, _ = np.linalg.qr(rng.randn(3, 3))
        sm = df.UnitSquareMesh(n, n)
        y = sm.coordinates() - 0.5
        h = 0.15*y[:, 0]**2 + 0.1*y[:, 1] if how == 'bent' else 0*y[:, 0]
        x = 0.5 + (o-0.35) + 0.45*np.c_[y, h]@Q.T
        cells, tdim = sm.cells(), 2
    perm = rng.permutation(len(x))     # Numbering
    inv = np.argsort(perm)
    x, cells = x[perm], [[inv[v] for v in c] for c in cells]
    cells = [cells[i] for i in rng.permutation(len(cells))]
    if spec.get('aff'):
        A, b = affine_map(spec['aff'], gdim)
        x = x@A.T + b
    tm = build_mesh(x, cells, tdim)
    if s['imm'] % 2:
        # Can be localized
        tm.marking_function = df.MeshFunction('size_t', tm, tdim, 0)
        tm.marking_function.array()[:] = rng.randint(1, 3, tm.num_cells())
    return tm


def containing(mesh, x, tol=1E-9):
    '''All cells by barycentric coordinates'''
    X, out = mesh.coordinates(), []
    for i, c in enumerate(mesh.cells()):
        y = X[c]
        lam = np.linalg.solve((y[1:]-y[0]).T, x - y[0])
        if min(lam.min(), 1-lam.sum()) > -tol:
            out.append(i)
    return out


def body(s):
    if s['how'] == 'facets':
        # Otherwise, in floating point, nodes on the boundary are outside
        s['mesh']['aff'] = 0
    mesh = mesh_of(s['mesh'])
    V = df.FunctionSpace(mesh, ELM[s['elm']][0](mesh.ufl_cell()))
    tms = []
    for other in s['more']:
        if s['how'] != 'facets' and other['how'] == 'facets':
            other = dict(other, how='bent')
        t = dict(s, **other)
        if other['new'] or not tms:
            tms.append(immersed(t, mesh, s['mesh']))
        request(t, mesh, tms[-1], V)
    return request(s, mesh, tms[0] if tms and not s['more'][0]['new'] else immersed(s, mesh, s['mesh']), V)


def request(s, mesh, tm, V):
    make, deg = ELM[s['elm']]
    if s['poly']:
        p = Poly(mesh.geometry().dim(), {'DG0': 0, 'RT1': 0, 'mTH': 1}.get(s['elm'], deg), int(np.prod(V.ufl_element().value_shape() or (1,))), s['u'])
        u = interp(p, V)
    else:
        u = rand_fun(V, s['u'])
    if s['elm'] == 'mTH':
        # As the trace space keeps the degree of each component
        TV = df.FunctionSpace(tm, df.MixedElement([df.FiniteElement('DG', tm.ufl_cell(), k) for k in (2, 2, 1)]))
    else:
        TV = dg_space(tm, deg, u.ufl_shape)
    dxt = df.Measure('dx', domain=tm)

    only, tag = None, None
    if s['tag'] and hasattr(tm, 'marking_function'):
        tags = sorted(set(tm.marking_function.array()))
        tag = int(tags[s['u'] % len(tags)])
        only = set(map(int, np.where(tm.marking_function.array() == tag)[0]))

    q = df.TestFunction(TV)
    b = ii_assemble(df.inner(Trace(u, tm, tag=tag), q)*dxt)
    A = ii_convert(ii_assemble(df.inner(Trace(df.TrialFunction(V), tm, tag=tag), q)*dxt))
    close((A*u.vector()).get_local(), b.get_local(), what='bilinear form applied vs linear form')
    p_ = rand_fun(TV, s['u']+1)
    c = ii_assemble(df.inner(p_, Trace(df.TestFunction(V), tm, tag=tag))*dxt)
    ref = p_.vector().inner(b)
    close(c.inner(u.vector()), ref, what='trace of test function', scale=1+np.abs(p_.vector().get_local())@np.abs(b.get_local()))

    # Get the values back from the integrals
    g = df.Function(TV)
    df.solve(df.assemble(df.inner(df.TrialFunction(TV), q)*dxt), g.vector(), b, 'lu')
    close(df.assemble(df.inner(g, q)*dxt).get_local(), b.get_local(), what='solver of the harness')
    gv = g.vector().get_local()
    scale = max(1, u.vector().norm('linf'))*20
    comps = [TV] if TV.num_sub_spaces() == 0 else [TV.sub(i) for i in range(TV.num_sub_spaces())]
    for c, (k, Ck) in itertools.product(range(tm.num_cells()), enumerate(comps)):
        for i, x in enumerate(Ck.element().tabulate_dof_coordinates(df.Cell(tm, c))):
            mine = gv[Ck.dofmap().cell_dofs(c)[i]]
            if only is not None and c not in only:
                close(mine, 0*mine, tol=1E-8, what='trace away from its tag', scale=scale)
                continue
            cells = containing(mesh, x)
            require(len(cells) > 0, 'harness: point is outside')
            options = [eval_in_cell(u, x, K)[k] for K in cells]
            e = min(np.max(np.abs(mine-o)) for o in options)
            require(e < 1E-8*scale, f'at {x} got {mine}, function takes values {options}')
            if s['poly']:
                close(mine, p(x)[k], tol=1E-8, what='polynomial at node', scale=scale)
    if np.ptp(gv) < 1E-8: return None
    return s['elm'] + ' ' + s['how'] + (' tag' if only is not None else '')


def cases(elm, mesh, nmax):
    more = st.fixed_dictionaries(dict(u=SEED, imm=SEED, n=st.integers(1, nmax), poly=st.booleans(), tag=st.booleans(), new=st.booleans(),
                                      how=st.sampled_from(['straight', 'bent', 'facets'])))
    return st.fixed_dictionaries(dict(mesh=mesh, elm=st.just(elm), u=SEED, more=st.lists(more, max_size=2), imm=SEED, n=st.integers(1, nmax), poly=st.booleans(), tag=st.booleans(),
                                      how=st.sampled_from(['straight', 'bent', 'facets'])))


SUBCHECKS = [Sub('immersed2d-%s' % e, cases(e, mesh2d(5), 5), body, quick=24, thorough=400) for e in ELM] + \
            [Sub('immersed3d-%s' % e, cases(e, mesh3d(3), 3), body, quick=12, thorough=200) for e in ('CG1', 'CG2', 'DG1', 'vCG1')]
