'''One sided traces, averages and jumps'''
from lib import *
from xii import *

RULE = ('Case = (bulk mesh; marked facets; per facet orientation and length of the normal; element; dof values; kind of trace; tags). '
        'Non-trivial: there is an interior facet where the values of the two sides differ, or (continuous element) the trace is not constant.')
ASSUMPTIONS = ['dolfin evaluation of functions in a given cell and assembly on the embedded mesh are trusted',
               'the prescribed normal is orthogonal to the facet; a side which does not exist (boundary facet) is not asked for']

ELM = {
    'DG0': (lambda c: df.FiniteElement('DG', c, 0), 0),
    'DG1': (lambda c: df.FiniteElement('DG', c, 1), 1),
    'DG2': (lambda c: df.FiniteElement('DG', c, 2), 2),
    'CG1': (lambda c: df.FiniteElement('CG', c, 1), 1),
    'CR1': (lambda c: df.FiniteElement('CR', c, 1), 1),
    'vDG1': (lambda c: df.VectorElement('DG', c, 1), 1),
    'tDG0': (lambda c: df.TensorElement('DG', c, 0), 0),
    'RT1': (lambda c: df.FiniteElement('RT', c, 1), 1),
    'BDM1': (lambda c: df.FiniteElement('BDM', c, 1), 1),
    'N1': (lambda c: df.FiniteElement('N1curl', c, 1), 1),
    'mRT': (lambda c: df.MixedElement([df.FiniteElement('RT', c, 1), df.FiniteElement('DG', c, 0)]), 1),
}


def cell_normal(mesh, facet_vertices, x):
    '''Unit vector orthogonal to the facet'''
    y = x[facet_vertices]
    T = (y[1:] - y[0])
    _, _, Vt = np.linalg.svd(T)
    return Vt[-1]


def body(s):
    '''Requests made of the same mesh'''
    mesh = mesh_of(s['mesh'])
    f, present = mark_entities(mesh, mesh.topology().dim()-1, s['mark'])
    bm = EmbeddedMesh(f, present if len(present) > 1 else present[0])
    spaces, normals = {}, {}
    for other in s['more']:
        # Another side, normal, function
        request(dict(s, **dict(other, elm=other['elm'] or s['elm'])), mesh, f, present, bm, spaces, normals)
    return request(s, mesh, f, present, bm, spaces, normals)


def request(s, mesh, f, present, bm, spaces, normals):
    tdim = mesh.topology().dim()
    fdim, gdim = tdim-1, mesh.geometry().dim()
    f2c = entity_cells(mesh, fdim)
    kind = s['kind']
    facets = facet_of_cell(bm, mesh)
    tags = [int(f[e]) for e in facets]

    # Normal
    X = bm.coordinates()
    mid = lambda c: df.Cell(mesh, c).midpoint().array()[:gdim]
    rng = rng_of(s['nrm'])
    values, sides = [], []
    for c, vs in enumerate(bm.cells()):
        n = cell_normal(bm, vs, X)
        mp = X[vs].mean(axis=0)
        cells = f2c[facets[c]]
        flip = rng.uniform() < 0.5
        n = -n if flip else n
        points_out_of = [k for k in cells if np.dot(mp - mid(k), n) > 0]
        others = [k for k in cells if k not in points_out_of]
        if len(cells) == 1:
            # Let the needed side exist
            exists = {'+': points_out_of, '-': others}.get(kind, cells)
            if not exists:
                n, points_out_of, others = -n, others, points_out_of
        plus, minus = (points_out_of + [None])[0], (others + [None])[0]
        values.append(n*rng.uniform(0.5, 2) if s['scaled'] else n/np.linalg.norm(n))
        sides.append((plus, minus))
    if 'N' not in spaces:
        spaces['N'] = df.VectorFunctionSpace(bm, 'DG', 0)
    N = spaces['N']
    # Some are changed in place
    normal = normals.setdefault(s['nrm'] % 2, df.Function(N)) if s['inplace'] else df.Function(N)
    nv = normal.vector().get_local()
    for i in range(gdim):
        dm = N.sub(i).dofmap()
        for c in range(bm.num_cells()):
            nv[dm.cell_dofs(c)[0]] = values[c][i]
    normal.vector().set_local(nv)

    make, deg = ELM[s['elm']]
    if s['elm'] not in spaces:
        spaces[s['elm']] = df.FunctionSpace(mesh, make(mesh.ufl_cell()))
    V = spaces[s['elm']]
    u = rand_fun(V, s['u'])
    TV = dg_space(bm, deg, u.ufl_shape)

    only = None
    if s['tag']:
        only = {t for i, t in enumerate(present) if (s['u'] >> i) & 1} or {present[0]}
    tag = None if only is None else (tuple(only) if len(only) > 1 else list(only)[0])

    def value(kind):
        def at(c, x):
            if only is not None and tags[c] not in only:
                return np.zeros(max(1, int(np.prod(u.ufl_shape))))
            p, m = sides[c]
            up = eval_in_cell(u, x, p) if p is not None else None
            um = eval_in_cell(u, x, m) if m is not None else None
            if kind == '+': return up
            if kind == '-': return um
            if up is None: return um
            if um is None: return up
            return 0.5*(up+um) if kind == 'avg' else up-um
        return at

    g = fill_dg(df.Function(TV), value(kind))
    dxb = df.Measure('dx', domain=bm)
    q = df.TestFunction(TV)
    ref = df.assemble(df.inner(g, q)*dxb).get_local()
    b = ii_assemble(df.inner(Trace(u, bm, kind, normal, tag=tag), q)*dxb).get_local()
    close(b, ref, what='%s of a function' % kind)
    A = ii_convert(ii_assemble(df.inner(Trace(df.TrialFunction(V), bm, kind, normal, tag=tag), q)*dxb))
    close((A*u.vector()).get_local(), ref, what='%s of the trial function' % kind)
    p = rand_fun(TV, s['u']+1)
    c = ii_assemble(df.inner(p, Trace(df.TestFunction(V), bm, kind, normal, tag=tag))*dxb)
    close(c.inner(u.vector()), p.vector().get_local()@ref, what='%s of the test function' % kind, scale=1+abs(p.vector().get_local())@abs(ref))

    # Reversed normal
    flip = df.Function(N)
    flip.vector().axpy(-1., normal.vector())
    bdry = [c for c, (p_, m_) in enumerate(sides) if p_ is None or m_ is None]
    if kind in 'avg jump' or not bdry:
        other = {'+': '-', '-': '+'}.get(kind, kind)
        b2 = ii_assemble(df.inner(Trace(u, bm, other, flip, tag=tag), q)*dxb).get_local()
        expect = ref
        if kind == 'jump':
            expect = -ref
            for c in bdry:
                expect[TV.dofmap().cell_dofs(c)] *= -1
        close(b2, expect, what='%s with the reversed normal' % other)

    # Not to be confused with the other kinds for the same normal
    if kind in ('avg', 'jump'):
        if np.max(np.abs(b)) < 1E-8: return None
    differ = False
    for c, (p_, m_) in enumerate(sides):
        if p_ is not None and m_ is not None:
            x = X[bm.cells()[c]].mean(axis=0)
            if np.max(np.abs(eval_in_cell(u, x, p_) - eval_in_cell(u, x, m_))) > 1E-6:
                differ = True
    if not differ and (s['elm'] != 'CG1' or np.ptp(b) < 1E-8):
        return None
    return s['elm'] + ' ' + kind + (' tag' if tag is not None else '')


def cases(elm, mesh, **kw):
    mark = st.fixed_dictionaries(dict(how=st.sampled_from(['random', 'random', 'interior', 'interior', 'all', 'one']), seed=SEED, ntags=st.integers(1, 3)))
    more = st.fixed_dictionaries(dict(nrm=SEED, scaled=st.booleans(), elm=st.sampled_from(['', '', 'DG0', 'DG1']), u=SEED,
                                      inplace=st.booleans(), kind=st.sampled_from(['+', '-', 'avg', 'jump']), tag=st.booleans()))
    return st.fixed_dictionaries(dict(mesh=mesh, mark=mark, nrm=SEED, scaled=st.booleans(), elm=st.just(elm), u=SEED, inplace=st.booleans(),
                                      kind=st.sampled_from(['+', '-', 'avg', 'jump']), tag=st.booleans(), more=st.lists(more, max_size=2)))


SUBCHECKS = [Sub('sides2d-%s' % e, cases(e, mesh2d()), body, quick=20, thorough=400) for e in ELM] + \
            [Sub('sides3d-%s' % e, cases(e, mesh3d()), body, quick=10, thorough=200) for e in ('DG0', 'DG1', 'RT1')]
