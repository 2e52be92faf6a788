'''Means over the domain and over surfaces'''
from xii import *
from shapes import *

RULE = ('Case = (mesh, element, weight (none, number, function, expression; changed between assemblies), measure (whole mesh, cells or exterior facets with a tag), coefficients) or '
        '(mesh, embedded facets, element, coefficients). Non-trivial: domain of integration is not empty.')
ASSUMPTIONS = ['dolfin assembly of plain forms is trusted']

ELM = {'CG1': ('CG', 1), 'CG2': ('CG', 2), 'DG0': ('DG', 0), 'DG1': ('DG', 1), 'CR': ('CR', 1)}


def compare(u, op, value, mesh, target, seed, what, scale):
    '''Operator reduces u to the constant with the given value, seen through integrals with functions from target'''
    V = u.function_space()
    dx = df.dx(domain=mesh)
    q = df.TestFunction(target)
    w = rand_fun(target, seed)
    R = df.FunctionSpace(mesh, 'R', 0)
    p = df.TrialFunction(R)
    qq = arr(df.assemble(q*dx))
    close(arr(ii_assemble(df.inner(op(u), q)*dx)), value*qq, what=what + ' function', scale=scale)
    A = ii_convert(ii_assemble(df.inner(op(df.TrialFunction(V)), q)*dx))
    close(arr(A*u.vector()), value*qq, what=what + ' trial function', scale=scale)
    B = ii_convert(ii_assemble(df.inner(df.TrialFunction(target), op(df.TestFunction(V)))*dx))
    close((B*w.vector()).inner(u.vector()), value*df.assemble(w*dx), what=what + ' test function', scale=scale)
    b = ii_assemble(df.inner(w, op(df.TestFunction(V)))*dx)
    close(b.inner(u.vector()), value*df.assemble(w*dx), what=what + ' linear form', scale=scale)
    # Both
    C = ii_convert(ii_assemble((1+w**2)*df.inner(op(df.TrialFunction(V)), op(df.TestFunction(V)))*dx))
    close((C*u.vector()).inner(u.vector()), value**2*df.assemble((1+w**2)*dx), what=what + ' bilinear form', scale=scale**2)
    # Nonlinear
    close(ii_assemble(op(u)**2*w*dx), value**2*df.assemble(w*dx), what=what + ' functional', scale=scale**2)
    # Together with the function which is not reduced
    if V == target:
        D = ii_convert(ii_assemble(df.inner(df.TrialFunction(V), q)*dx - df.inner(op(df.TrialFunction(V)), q)*dx))
        close(arr(D*u.vector()), arr(df.assemble(u*q*dx)) - value*qq, what=what + ' fluctuation', scale=scale)


def body(s):
    mesh = mesh_of(s['mesh'])
    V = df.FunctionSpace(mesh, *ELM[s['elm']])
    u = rand_fun(V, s['u'])
    tdim = mesh.topology().dim()
    cf, _ = mark_entities(mesh, tdim, s['mark'])
    ff, _ = mark_entities(mesh, tdim-1, s['mark'])
    measure, Measure = {'none': (None, df.dx), 'dx': (df.dx, df.dx),
                        'dx1': (df.Measure('dx', domain=mesh, subdomain_data=cf)(1), )*2,
                        'ds1': (df.Measure('ds', domain=mesh, subdomain_data=ff)(1), )*2,
                        'ds': (df.ds, df.ds)}[s['measure']]
    Q = df.FunctionSpace(mesh, 'DG', 0)
    g, c = rand_fun(Q, s['u']+7), df.Constant(0.5)
    weight = {'none': None, 'number': df.Constant(3), 'constant': c, 'function': g, 'expression': c*g+df.SpatialCoordinate(mesh)[0]}[s['weight']]
    label = None
    size = df.assemble(df.Constant(1)*df.dx(domain=mesh))
    target = V if s['elm'] != 'CR' else Q
    # Other requests with the same spaces
    for name in s['before']:
        m = {'none': df.dx, 'dx': df.dx, 'dxm': df.Measure('dx', domain=mesh), 'ds': df.ds, 'dsm': df.Measure('ds', domain=mesh), 'dx2': df.Measure('dx', domain=mesh, subdomain_data=cf)(2),
             'dx1': df.Measure('dx', domain=mesh, subdomain_data=cf)(1), 'dxq': df.Measure('dx', domain=mesh, metadata={'quadrature_degree': 0})}[name]
        q = df.TestFunction(target)
        b = ii_assemble(df.inner(Mean(u, **({} if name == 'none' else {'measure': m})), q)*df.dx)
        close(arr(b), df.assemble(u*m)*arr(df.assemble(q*df.dx)), what='mean with ' + name, scale=(1+size)*(1+10*df.assemble(abs(u)*m)))
    for change in range(s['changes']+1):
        if change:
            g.vector()[:] = vals(s['u']+10+change, Q.dim())
            c.assign(float(vals(s['u']+10+change, 1)[0]))
            u.vector()[:] = vals(s['u']+20+change, V.dim())
        value = df.assemble((u if weight is None else weight*u)*Measure)
        kwargs = {}
        if weight is not None:
            kwargs['weight'] = weight
        if measure is not None:
            kwargs['measure'] = measure
        compare(u, lambda v: Mean(v, **kwargs), value, mesh, target, s['u']+1, 'mean', scale=(1+size)*(1+10*df.assemble(abs(u)*Measure)))
        if abs(value) > 1E-8:
            label = '%s %s %s' % (s['elm'], s['weight'], s['measure'])
    return label


def body_surface(s):
    mesh = mesh_of(s['mesh'])
    tdim = mesh.topology().dim()
    V = df.FunctionSpace(mesh, *ELM[s['elm']])
    u = rand_fun(V, s['u'])
    mark = dict(s['mark'])
    if s['elm'] in ('DG0', 'DG1', 'CR'):
        # Value is from one of the cells
        mark['how'], mark['ntags'] = 'boundary', 1
    ff, tags = mark_entities(mesh, tdim-1, mark)
    if s['boundary_mesh'] and mark['how'] == 'boundary':
        bm = df.BoundaryMesh(mesh, 'exterior')
        ff.set_all(0)
        df.DomainBoundary().mark(ff, 1)
        tags = [1]
    else:
        bm = EmbeddedMesh(ff, tags)
    ds = df.Measure('ds', domain=mesh, subdomain_data=ff)
    dS = df.Measure('dS', domain=mesh, subdomain_data=ff)
    integrate = lambda f: sum(df.assemble(f*ds(t)) + df.assemble(df.avg(f)*dS(t)) for t in tags)
    one = df.interpolate(df.Constant(1), df.FunctionSpace(mesh, 'CG', 1))
    area = integrate(one)
    value = integrate(u)/area
    compare(u, lambda v: SurfaceMean(v, bm), value, bm, df.FunctionSpace(bm, 'CG', 1), s['u']+1, 'surface mean', scale=10*(1+area))
    # Next to the trace
    t = Trace(u, bm)
    dxb = df.dx(domain=bm)
    if s['elm'] != 'CR':
        close(ii_assemble((t - SurfaceMean(u, bm))*dxb), 0, what='mean of fluctuation', scale=10*(1+area))
    return '%s %s tdim %d' % (s['elm'], mark['how'], tdim)


MESH = st.one_of(mesh2d(4), mesh2d(3), mesh3d(2))


def cases(elm):
    return st.fixed_dictionaries(dict(mesh=MESH, mark=MARK, elm=st.just(elm), u=SEED, changes=st.integers(0, 1),
                                      before=st.lists(st.sampled_from(['none', 'dx', 'dxm', 'ds', 'dsm', 'dx1', 'dx2', 'dxq']), max_size=2),
                                      weight=st.sampled_from(['none', 'number', 'constant', 'function', 'expression']),
                                      measure=st.sampled_from(['none', 'dx', 'dx1', 'ds1', 'ds'])))


def cases_surface(elm):
    return st.fixed_dictionaries(dict(mesh=MESH, mark=MARK, elm=st.just(elm), u=SEED, boundary_mesh=st.booleans()))


SUBCHECKS = [Sub('mean-%s' % e, cases(e), body, quick=25, thorough=500) for e in ELM] + \
            [Sub('surface-%s' % e, cases_surface(e), body_surface, quick=20, thorough=400) for e in ELM]
