'''Flux average operator'''
from shapes import *
from xii import *
from xii.assembler.average_shape import Circle

RULE = ('Case = (3d mesh (jitter, affine image), curve from edges of the mesh or a free polygonal curve, circle with constant or position dependent radius, '
        'number of nodes, vector valued element, polynomial or random coefficients). Non-trivial: the flux is not identically zero.')
ASSUMPTIONS = ['dolfin evaluation of functions in a given cell and assembly on the curve are trusted',
               'circles are inside of the 3d mesh',
               'for random coefficients the mean is with respect to the points and weights of the circle rule (property A07); the normals are computed by the harness']

ELM = {
    'vCG1': (lambda c: df.VectorElement('CG', c, 1), 1),
    'vCG2': (lambda c: df.VectorElement('CG', c, 2), 2),
    'vDG1': (lambda c: df.VectorElement('DG', c, 1), 1),
    'vDG0': (lambda c: df.VectorElement('DG', c, 0), 0),
    'RT1': (lambda c: df.FiniteElement('RT', c, 1), 0),
    'RT2': (lambda c: df.FiniteElement('RT', c, 2), 1),
    'BDM1': (lambda c: df.FiniteElement('BDM', c, 1), 1),
    'N1curl1': (lambda c: df.FiniteElement('N1curl', c, 1), 0),
}


def body(s):
    '''Requests on the same meshes'''
    mesh, curve = curve_in_cube(s['curve'])
    V = df.FunctionSpace(mesh, ELM[s['elm']][0](mesh.ufl_cell()))
    for other in s['more']:
        request(fix(dict(s, **dict(other, shape=dict(s['shape'], **other['shape'])))), mesh, curve, V)
    return request(s, mesh, curve, V)


def request(s, mesh, curve, V):
    make, deg = ELM[s['elm']]
    if s['poly']:
        p = Poly(3, deg, 3, s['u'])
        u = interp(p, V)
    else:
        p, u = None, rand_fun(V, s['u'])
    ref = Ref(s['shape'])
    TV = df.FunctionSpace(curve, 'DG', V.ufl_element().degree())
    dxc = df.Measure('dx', domain=curve)
    q, r = df.TestFunction(TV), df.TrialFunction(TV)

    FA = lambda v: FluxAverage(v, curve, ref.shape)
    A = ii_assemble(df.inner(FA(df.TrialFunction(V)), q)*dxc)
    B = ii_assemble(df.inner(r, FA(df.TestFunction(V)))*dxc)
    A, B = ii_convert(A), ii_convert(B)
    b = A*u.vector()
    w = rand_fun(TV, s['u']+1)
    close((B*w.vector()).inner(u.vector()), w.vector().inner(b), what='test vs trial function',
          scale=1+np.abs(arr(w.vector()))@np.abs(arr(b)))
    # Weighted, as one would have in a coupling
    k = rand_fun(df.FunctionSpace(curve, 'DG', 0), s['u']+2)
    c = ii_assemble(df.inner(k*w, FA(df.TestFunction(V)))*dxc)

    mean = nodal_values(TV, b)
    close(c.inner(u.vector()), df.assemble(k*w*mean*dxc), what='flux of test function', scale=1+np.abs(arr(c))@np.abs(arr(u.vector())))

    loc = Locator(mesh)
    scale = 10*max(1, u.vector().norm('linf')*(50 if s['elm'][0] != 'v' else 1))
    for cell, x, mine in at_nodes(mean):
        n = tangent(curve, cell)
        n = n/np.linalg.norm(n)
        if p is not None:
            pts, wts, _ = ref.nodes(x, n)
            normal = lambda y: (y-x)/np.linalg.norm(y-x)
            close(mine, [sum(wi*np.dot(p(y), normal(y)) for y, wi in zip(pts, wts))], tol=1E-8, what='mean flux of polynomial', scale=scale)
        else:
            rule = ref.shape.quadrature(x, -n)
            wts = np.array(rule.weights)
            lo = hi = 0
            for y, wi in zip(rule.points, wts/wts.sum()):
                normal = (y-x)/np.linalg.norm(y-x)
                vs = [wi*np.dot(eval_in_cell(u, y, k), normal) for k in loc(y)]
                lo, hi = lo + np.min(vs), hi + np.max(vs)
            require(lo-1E-8*scale < mine[0] < hi+1E-8*scale, f'mean flux at {x}: got {mine} expected {lo}, {hi}')
    return '%s %s' % (s['elm'], s['curve']['kind']) if np.max(np.abs(arr(mean.vector()))) > 1E-8 else None


def fix(s):
    if s['poly']:
        s['shape']['degree'] = 24 + s['shape']['degree'] % 3
    return s


def cases(elm):
    shape = st.fixed_dictionaries({}, optional=dict(size=SEED, const=st.booleans(), degree=st.integers(3, 12)))
    more = st.fixed_dictionaries(dict(u=SEED, poly=st.booleans(), shape=shape))
    return st.fixed_dictionaries(dict(curve=CURVE, elm=st.just(elm), u=SEED, poly=st.booleans(), more=st.lists(more, max_size=2),
                                      shape=shapes(('circle', ), st.integers(3, 12)))).map(fix)


SUBCHECKS = [Sub('flux-%s' % e, cases(e), body, quick=25, thorough=400) for e in ELM]
