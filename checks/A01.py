'''Trace of a finite element function is its restriction to the embedded mesh'''
from lib import *
from xii import *

RULE = ('Case = (bulk mesh 2d/3d: diagonal, random jitter, affine image, local refinement; marked facets; element; dof values; tag '
        'selection). Non-trivial: the function is not constant on the embedded mesh and there are at least as many facets as tags.')
ASSUMPTIONS = ['dolfin evaluation of functions in a given cell and assembly on the embedded mesh are trusted',
               'for spaces that are not continuous any cell connected to the facet may provide the value']

E2 = {
    'CG1': (lambda c: df.FiniteElement('CG', c, 1), 1),
    'CG2': (lambda c: df.FiniteElement('CG', c, 2), 2),
    'CG3': (lambda c: df.FiniteElement('CG', c, 3), 3),
    'DG0': (lambda c: df.FiniteElement('DG', c, 0), 0),
    'DG1': (lambda c: df.FiniteElement('DG', c, 1), 1),
    'CR1': (lambda c: df.FiniteElement('CR', c, 1), 1),
    'vCG1': (lambda c: df.VectorElement('CG', c, 1), 1),
    'vCG2': (lambda c: df.VectorElement('CG', c, 2), 2),
    'vCG1x4': (lambda c: df.VectorElement('CG', c, 1, dim=4), 1),
    'tCG1': (lambda c: df.TensorElement('CG', c, 1), 1),
    'RT1': (lambda c: df.FiniteElement('RT', c, 1), 1),
    'BDM1': (lambda c: df.FiniteElement('BDM', c, 1), 1),
    'N1': (lambda c: df.FiniteElement('N1curl', c, 1), 1),
    'mTH': (lambda c: df.MixedElement([df.VectorElement('CG', c, 2), df.FiniteElement('CG', c, 1)]), 2),
    'mCG': (lambda c: df.MixedElement([df.FiniteElement('CG', c, 2), df.FiniteElement('CG', c, 1)]), 2),
    'mRT': (lambda c: df.MixedElement([df.FiniteElement('RT', c, 1), df.FiniteElement('DG', c, 0)]), 1),
}
ELM2 = sorted(E2)
ELM3 = ['CG1', 'CG2', 'DG1', 'vCG1', 'RT1', 'N1', 'mCG']
CONTINUOUS = ('CG1', 'CG2', 'CG3', 'vCG1', 'vCG2', 'vCG1x4', 'tCG1', 'mTH', 'mCG')


def embed(mesh, mark):
    fdim = mesh.topology().dim()-1
    f, present = mark_entities(mesh, fdim, mark)
    return EmbeddedMesh(f, present if len(present) > 1 else present[0]), present, f


def setup(s, mesh=None, embedded=None):
    mesh = mesh_of(s['mesh']) if mesh is None else mesh
    fdim = mesh.topology().dim()-1
    bm, present, f = embed(mesh, s['mark']) if embedded is None else embedded
    make, deg = E2[s['elm']]
    V = df.FunctionSpace(mesh, make(mesh.ufl_cell()))
    u = rand_fun(V, s['u'])
    # Our view of cells
    facets = facet_of_cell(bm, mesh)
    f2c = entity_cells(mesh, fdim)
    sides = [(f2c[e][0], f2c[e][-1]) for e in facets]
    tags = [int(f[e]) for e in facets]
    return mesh, bm, present, V, u, deg, sides, tags


def reference(bm, u, deg, sides, tags, only):
    '''Trace function built from one or the other side'''
    TV = dg_space(bm, deg, u.ufl_shape)
    zero = np.zeros(int(np.prod(u.ufl_shape)) if u.ufl_shape else 1)
    gs = []
    for side in (0, 1):
        gs.append(fill_dg(df.Function(TV), lambda c, x: eval_in_cell(u, x, sides[c][side])
                          if (only is None or tags[c] in only) else zero))
    return TV, gs


def compare_cellwise(b, b0, b1, Q, what):
    '''On each cell of the embedded mesh b comes from b0 or from b1'''
    scale = max(1., np.max(np.abs(b0)), np.max(np.abs(b1)))
    require(np.all(np.isfinite(b)), what + ': not finite')
    dm = Q.dofmap()
    for c in range(Q.mesh().num_cells()):
        d = dm.cell_dofs(c)
        e = min(np.max(np.abs(b[d]-b0[d])), np.max(np.abs(b[d]-b1[d])))
        require(e <= 1E-9*scale, f'{what}: on cell {c} got {b[d]} expected {b0[d]} or {b1[d]}')


def pick_only(s, present):
    if s['tag'] == 'none':
        return None, None
    if s['tag'] == 'one':
        t = present[s['u'] % len(present)]
        return t, {t}
    ts = [t for i, t in enumerate(present) if (s['u'] >> i) & 1] or present[:1]
    return tuple(ts), set(ts)


def body(s):
    '''Requests made of the same meshes'''
    mesh = mesh_of(s['mesh'])
    embedded = [embed(mesh, s['mark'])]
    label = None
    for k, other in enumerate(s['more']):
        if other['mesh']:
            # Facets of the same mesh, the same tags
            embedded.append(embed(mesh, dict(s['mark'], seed=other['u'])))
        pick = embedded[other['on'] % len(embedded)]
        request(dict(s, elm=other['elm'] if other['elm'] in E2 else s['elm'], u=other['u'], tag=other['tag']), mesh, pick)
    return request(s, mesh, embedded[0])


def request(s, mesh, embedded):
    mesh, bm, present, V, u, deg, sides, tags = setup(s, mesh, embedded)
    tag, only = pick_only(s, present)
    TV, (g0, g1) = reference(bm, u, deg, sides, tags, only)

    q, dxb = df.TestFunction(TV), df.Measure('dx', domain=bm)
    b0, b1 = (df.assemble(df.inner(g, q)*dxb).get_local() for g in (g0, g1))
    # Reduced function
    b = ii_assemble(df.inner(Trace(u, bm, tag=tag), q)*dxb).get_local()
    compare_cellwise(b, b0, b1, TV, 'linear form with trace of function')
    # The same as trial function action
    A = ii_convert(ii_assemble(df.inner(Trace(df.TrialFunction(V), bm, tag=tag), q)*dxb))
    close((A*u.vector()).get_local(), b, what='bilinear form applied vs linear form')
    # Test function side
    v = df.TestFunction(V)
    p = rand_fun(TV, s['u']+1)
    c = ii_assemble(df.inner(p, Trace(v, bm, tag=tag))*dxb)
    close(c.inner(u.vector()), p.vector().get_local()@b, what='trace of test function', scale=1+abs(p.vector().get_local())@abs(b))
    At = ii_convert(ii_assemble(df.inner(df.TrialFunction(TV), Trace(v, bm, tag=tag))*dxb))
    close(At.array(), A.array().T, what='swapping test and trial')

    if np.ptp(b) < 1E-8:
        return None
    return s['elm'] + ('' if only is None else ' tag')


def body_nonlin(s):
    '''Continuous function: any expression with the trace is that of the restricted function'''
    mesh, bm, present, V, u, deg, sides, tags = setup(s)
    TV, (g, _) = reference(bm, u, deg, sides, tags, None)
    dxb = df.Measure('dx', domain=bm, subdomain_data=bm.marking_function)
    t = present[s['u'] % len(present)]
    w = rand_fun(V, s['u']+7)
    _, (gw, _) = reference(bm, w, deg, sides, tags, None)
    forms = {
        'square': lambda a, b: (1+df.inner(a, a))*df.inner(a, b)*dxb,
        'grad': lambda a, b: df.inner(df.grad(a), df.grad(b))*dxb,
        'measure': lambda a, b: df.inner(a, b)*dxb(t) + 3*df.inner(a, a)*dxb,
        'const': lambda a, b: df.Constant(2.5)*df.inner(a, b)*dxb - df.exp(-df.inner(a, a))*dxb(t),
    }
    form = forms[s['form']]
    num = ii_assemble(form(Trace(u, bm), Trace(w, bm)))
    ref = df.assemble(form(g, gw))
    close(num, ref, what='functional ' + s['form'], scale=1+abs(ref))

    # Function changed in place is seen by the annotated copy
    Tu = Trace(u, bm)
    u.vector()[:] *= 2.
    g.vector()[:] *= 2.
    q = df.TestFunction(TV)
    close(arr(ii_assemble(df.inner(Tu, q)*dxb)), arr(df.assemble(df.inner(g, q)*dxb)), what='trace after the update of the vector')

    # Mass matrix on traces
    u_, v_ = df.TrialFunction(V), df.TestFunction(V)
    M = ii_convert(ii_assemble(df.inner(Trace(u_, bm), Trace(v_, bm))*dxb(t)))
    ref = df.assemble(df.inner(g, gw)*dxb(t))
    close(w.vector().inner(M*u.vector()), ref, what='bilinear form in two traces', scale=1+abs(ref))
    return s['form'] + ' ' + s['elm']


def body_dlt(s):
    '''Facet space functions'''
    mesh = mesh_of(s['mesh'])
    fdim = mesh.topology().dim()-1
    f, present = mark_entities(mesh, fdim, s['mark'])
    bm = EmbeddedMesh(f, present if len(present) > 1 else present[0])
    vec = s['vec']
    family = 'Discontinuous Lagrange Trace'
    V = df.VectorFunctionSpace(mesh, family, 0) if vec else df.FunctionSpace(mesh, family, 0)
    u = rand_fun(V, s['u'])
    Q = df.VectorFunctionSpace(bm, 'DG', 0) if vec else df.FunctionSpace(bm, 'DG', 0)
    dxb = df.Measure('dx', domain=bm)
    b = ii_assemble(df.inner(Trace(u, bm), df.TestFunction(Q))*dxb).get_local()
    facets = facet_of_cell(bm, mesh)
    # Reference: dofs of the facets
    vols = [c.volume() for c in df.cells(bm)]
    subs = [(Q.sub(i), V.sub(i)) for i in range(mesh.geometry().dim())] if vec else [(Q, V)]
    uv = u.vector().get_local()
    for Qi, Vi in subs:
        e2d = [Vi.dofmap().entity_dofs(mesh, fdim, [e])[0] for e in facets]
        ref = np.array([vol*uv[d] for vol, d in zip(vols, e2d)])
        mine = np.array([b[Qi.dofmap().cell_dofs(c)[0]] for c in range(bm.num_cells())])
        close(mine, ref, what='facet function')
    return 'vector' if vec else 'scalar'


def body_blind(s):
    """Embedded mesh does not know (by construction) how it is embedded in the mesh of the function"""
    mesh = mesh_of(s['mesh'])
    tdim = mesh.topology().dim()
    fdim = tdim-1
    f, present = mark_entities(mesh, fdim, s['mark'])

    other = s['other']
    if other == 'boundary':
        bm = df.BoundaryMesh(mesh, 'exterior')
        B, present = mesh, [0]
        ftags = lambda e: 0
    else:
        if other == 'copy':
            B = df.Mesh(mesh)
        else:
            # Cells which have some marked facet + some more
            cf = df.MeshFunction('size_t', mesh, tdim, 0)
            keep = vals(s['u']+3, mesh.num_cells()) > 0.3
            for e, cells in enumerate(entity_cells(mesh, fdim)):
                if f[e]:
                    keep[cells[(s['u']+e) % len(cells)]] = True
            cf.array()[:] = keep
            B = EmbeddedMesh(cf, 1) if other == 'sub' else df.SubMesh(mesh, cf, 1)
        bm = EmbeddedMesh(f, present if len(present) > 1 else present[0])
    facets = facet_of_cell(bm, B)
    tags = [int(bm.marking_function[c]) for c in range(bm.num_cells())] if hasattr(bm, 'marking_function') else [0]*bm.num_cells()
    f2c = entity_cells(B, fdim)
    sides = [(f2c[e][0], f2c[e][-1]) for e in facets]
    make, deg = E2[s['elm']]
    V = df.FunctionSpace(B, make(B.ufl_cell()))
    u = rand_fun(V, s['u'])
    dxb = df.Measure('dx', domain=bm)
    for k, pick in enumerate(s['seq']):
        only = None
        if pick and other != 'boundary':
            only = {t for i, t in enumerate(present) if (pick >> i) & 1} or {present[pick % len(present)]}
        tag = None if only is None else (tuple(sorted(only)) if len(only) > 1 else list(only)[0])
        TV, (g0, g1) = reference(bm, u, deg, sides, tags, only)
        q = df.TestFunction(TV)
        b0, b1 = (df.assemble(df.inner(g, q)*dxb).get_local() for g in (g0, g1))
        b = ii_assemble(df.inner(Trace(u, bm, tag=tag), q)*dxb).get_local()
        compare_cellwise(b, b0, b1, TV, 'trace %d limited to tags %s' % (k, only))
    # The map is one into the other mesh
    vmap, cmap = bm.parent_entity_map[B.id()][0], bm.parent_entity_map[B.id()][fdim]
    x, y = bm.coordinates(), B.coordinates()
    for v, w in vmap.items():
        close(x[v], y[w], what='vertex map')
    for c, e in cmap.items():
        require(facets[c] == e, 'cell %d mapped to facet %d, not %d' % (c, e, facets[c]))
    return s['elm'] + ' ' + other if np.ptp(b) > 1E-8 or len(s['seq']) > 1 else None


def cases(elms, mesh):
    more = st.fixed_dictionaries(dict(mesh=st.booleans(), on=st.integers(0, 2), u=SEED, tag=st.sampled_from(['none', 'one', 'some']),
                                      elm=st.sampled_from(['', '', 'CG1', 'DG1', 'DG0'])))
    return st.fixed_dictionaries(dict(mesh=mesh, mark=MARK, elm=st.sampled_from(elms), u=SEED,
                                      tag=st.sampled_from(['none', 'one', 'some']), more=st.lists(more, max_size=2)))


NONLIN = ['square', 'grad', 'measure', 'const']
SUBCHECKS = [
    Sub('trace2d-%s' % e, cases([e], mesh2d()), body, quick=14, thorough=300) for e in ELM2
] + [
    Sub('trace3d-%s' % e, cases([e], mesh3d()), body, quick=8, thorough=150) for e in ELM3
] + [
    Sub('expr2d-%s' % e, st.fixed_dictionaries(dict(mesh=mesh2d(), mark=MARK, elm=st.just(e), u=SEED,
                                                    form=st.sampled_from(NONLIN))), body_nonlin, quick=10, thorough=200)
    for e in ('CG1', 'CG2', 'vCG1')
] + [
    Sub('expr3d-CG1', st.fixed_dictionaries(dict(mesh=mesh3d(), mark=MARK, elm=st.just('CG1'), u=SEED,
                                                 form=st.sampled_from(NONLIN))), body_nonlin, quick=8, thorough=150),
    Sub('facet2d', st.fixed_dictionaries(dict(mesh=mesh2d(), mark=MARK, vec=st.booleans(), u=SEED)), body_dlt, quick=15, thorough=200),
    Sub('facet3d', st.fixed_dictionaries(dict(mesh=mesh3d(), mark=MARK, vec=st.booleans(), u=SEED)), body_dlt, quick=8, thorough=100),

] + [
    Sub('blind2d-%s' % e, st.fixed_dictionaries(dict(mesh=mesh2d(), mark=MARK, elm=st.just(e), u=SEED,
        other=st.sampled_from(['copy', 'sub', 'submesh', 'boundary']), seq=st.lists(st.integers(0, 7), min_size=1, max_size=4))),
        body_blind, quick=30, thorough=400) for e in ('DG1', 'CG1')
] + [
    Sub('blind3d-%s' % e, st.fixed_dictionaries(dict(mesh=mesh3d(), mark=MARK, elm=st.just(e), u=SEED,
        other=st.sampled_from(['copy', 'sub', 'submesh', 'boundary']), seq=st.lists(st.integers(0, 7), min_size=1, max_size=4))),
        body_blind, quick=10, thorough=100) for e in ('CG1',)
]
