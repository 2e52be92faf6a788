'''Injection to a finer mesh'''
from xii import *
from xii.meshing.refinement import centroid_refine
from shapes import *

RULE = ('Case = (coarse mesh 1d/2d/3d, how the fine mesh is obtained: uniform, local, centroid refinement (once, twice) or a mesh which is not nested, method, element, coefficients). '
        'Non-trivial: the function is not constant.')
ASSUMPTIONS = ['dolfin evaluation of functions in a given cell and assembly of plain forms are trusted',
               "method 'interpolate' of dolfin is only meant for spaces with continuous Lagrange elements",
               'the finer mesh is obtained from the coarse one directly (by one call)']

ELM = {
    'CG1': (lambda c: df.FiniteElement('CG', c, 1), 1),
    'CG2': (lambda c: df.FiniteElement('CG', c, 2), 2),
    'CG3': (lambda c: df.FiniteElement('CG', c, 3), 3),
    'vCG1': (lambda c: df.VectorElement('CG', c, 1), 1),
    'vCG2': (lambda c: df.VectorElement('CG', c, 2), 2),
    'DG0': (lambda c: df.FiniteElement('DG', c, 0), 0),
    'DG1': (lambda c: df.FiniteElement('DG', c, 1), 1),
    'DG2': (lambda c: df.FiniteElement('DG', c, 2), 2),
    'vDG1': (lambda c: df.VectorElement('DG', c, 1), 1),
    'RT1': (lambda c: df.FiniteElement('RT', c, 1), 1),
    'RT2': (lambda c: df.FiniteElement('RT', c, 2), 2),
    'BDM1': (lambda c: df.FiniteElement('BDM', c, 1), 1),
    'N1': (lambda c: df.FiniteElement('N1curl', c, 1), 1),
    'TH': (lambda c: df.MixedElement([df.VectorElement('CG', c, 2), df.FiniteElement('CG', c, 1)]), 2),
}
LAGRANGE = ('CG1', 'CG2', 'CG3', 'vCG1', 'vCG2')


def finer(mesh, s):
    how = s['fine']
    tdim = mesh.topology().dim()
    if how == 'uniform':
        return df.refine(mesh)
    if how == 'local':
        cf = df.MeshFunction('bool', mesh, tdim, False)
        cf.array()[:] = vals(s['u']+3, mesh.num_cells()) > 0.2
        cf.array()[rng_of(s['u']).randint(mesh.num_cells())] = True
        return df.refine(mesh, cf)
    if how == 'centroid':
        return centroid_refine(mesh)
    if how == 'centroid2':
        return centroid_refine(mesh, nrefs=2)
    raise ValueError


def body(s):
    '''Requests for the same coarse mesh and space'''
    mesh = mesh_of(s['mesh'])
    V = df.FunctionSpace(mesh, ELM[s['elm']][0](mesh.ufl_cell()))
    for other in s['more']:
        other = fix(dict(s, **other), sequel=True)
        request(other, mesh, V)
    return request(s, mesh, V)


def request(s, mesh, V):
    tdim = mesh.topology().dim()
    method = s['method']
    if s['fine'] == 'other':
        spec = dict(s['mesh'], n=[k+1+s['u'] % 2 for k in s['mesh']['n']], jit=None, refine=None)
        fine, method = mesh_of(spec), 'interpolate'
    else:
        fine = finer(mesh, s)
        if s['shuffle']:
            # Map from the user
            cells = list(map(int, fine.parent_entity_map[mesh.id()][tdim].values() if hasattr(fine, 'parent_entity_map') else fine.data().array('parent_cell', tdim)))
            order = rng_of(s['u']).permutation(len(cells))
            fine.parent_entity_map = {mesh.id(): {tdim: {int(k): cells[k] for k in order}}}
    make, deg = ELM[s['elm']]
    u = rand_fun(V, s['u'])

    kwargs = {} if method == 'interpolate' and s['default'] else {'not_nested_method': method}
    inj = lambda v: Injection(v, fine, **kwargs)
    loc = Locator(mesh)
    if s['fine'] == 'other':
        Vf = df.FunctionSpace(fine, V.ufl_element())
        g = df.Function(Vf)
        comps = [Vf] if Vf.num_sub_spaces() == 0 else [Vf.sub(i) for i in range(Vf.num_sub_spaces())]
        gv = np.zeros(Vf.dim())
        for i, C in enumerate(comps):
            dm, el = C.dofmap(), C.element()
            for c in df.cells(fine):
                for d, x in zip(dm.cell_dofs(c.index()), el.tabulate_dof_coordinates(c)):
                    cs = loc(x, 1E-8)
                    require(len(cs), 'harness: point not found')
                    gv[d] = eval_in_cell(u, x, cs[0])[i]
        g.vector().set_local(gv)
    else:
        parent = []
        for c in df.cells(fine):
            cs = loc(c.midpoint().array()[:mesh.geometry().dim()])
            require(len(cs) == 1, 'harness: parent of the cell')
            parent.append(cs[0])
        G = dg_space(fine, deg, u.ufl_shape)
        g = fill_dg(df.Function(G), lambda c, x: eval_in_cell(u, x, parent[c]))

    TV = dg_space(fine, deg, u.ufl_shape)
    dxf = df.Measure('dx', domain=fine)
    q, p = df.TestFunction(TV), df.TrialFunction(TV)
    b0 = arr(df.assemble(df.inner(g, q)*dxf))
    b = ii_assemble(df.inner(inj(u), q)*dxf)
    scale = 1+np.max(np.abs(b0))
    close(arr(b), b0, what='injected function', tol=1E-8, scale=scale)
    A = ii_convert(ii_assemble(df.inner(inj(df.TrialFunction(V)), q)*dxf))
    close(arr(A*u.vector()), b0, what='injected trial function', tol=1E-8, scale=scale)
    w = rand_fun(TV, s['u']+1)
    c = ii_assemble(df.inner(w, inj(df.TestFunction(V)))*dxf)
    ww = arr(w.vector())
    close(c.inner(u.vector()), b0@ww, what='injected test function', tol=1E-8, scale=scale*10)
    B = ii_convert(ii_assemble(df.inner(p, inj(df.TestFunction(V)))*dxf))
    close(dense(B), dense(A).T, what='test vs trial', tol=1E-8, scale=scale)
    if s['fine'] != 'other':
        z = rand_fun(V, s['u']+2)
        close(ii_assemble(df.inner(inj(u), inj(z))*dxf), df.assemble(df.inner(u, z)*df.dx(domain=mesh)), what='integral', tol=1E-8)
    return '%s %s %s tdim%d' % (s['elm'], s['fine'], method, tdim) if np.ptp(arr(u.vector())) > 1E-8 else None


LINE = st.fixed_dictionaries(dict(k=st.just('line'), n=st.tuples(st.integers(1, 10)).map(list), jit=st.none() | SEED, aff=st.integers(0, 3), refine=st.none() | SEED))


def fix(s, sequel=False):
    if s['mesh']['aff'] and s['fine'] == 'other':
        # Needs the same domain
        if not sequel:
            s['mesh']['aff'] = 0
        else:
            s['fine'] = 'uniform'
    if s['elm'] not in LAGRANGE:
        s['method'] = None
        if s['fine'] == 'other':
            s['fine'] = 'centroid2'
    if s['mesh']['k'] == 'cube' and s['fine'] == 'centroid2':
        s['fine'] = 'centroid'
    if s['fine'].startswith('centroid') and s['mesh']['k'] != 'cube' and s['mesh']['jit'] is not None and s['mesh']['aff']:
        pass
    return s


def cases(elm):
    meshes = [mesh2d(3), mesh2d(3)]
    if elm in ('CG1', 'DG1', 'CG2', 'RT1', 'N1'):
        meshes.append(mesh3d(1))
    if elm in ('CG1', 'DG1', 'CG2'):
        meshes.append(LINE)
    more = st.fixed_dictionaries(dict(u=SEED, method=st.sampled_from([None, 'interpolate']), default=st.booleans(), shuffle=st.booleans(),
                                      fine=st.sampled_from(['uniform', 'local', 'centroid', 'other'])))
    return st.fixed_dictionaries(dict(mesh=st.one_of(*meshes), elm=st.just(elm), u=SEED, more=st.lists(more, max_size=2), method=st.sampled_from([None, 'interpolate']), default=st.booleans(), shuffle=st.booleans(),
                                      fine=st.sampled_from(['uniform', 'local', 'centroid', 'centroid2', 'other']))).map(fix)


SUBCHECKS = [Sub('injection-%s' % e, cases(e), body, quick=12, thorough=300) for e in ELM]
